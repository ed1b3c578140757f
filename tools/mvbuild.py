"""Builds the harnesses from /repo's working tree.  Objects are cached by the hash of what they depend on."""
import hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MV_REPO", "/repo")
SRC = os.path.join(REPO, "Source")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")

class BuildError(Exception):
    pass

def repo_sources():
    return sorted(p for p in glob.glob(SRC + "/**/*.cpp", recursive=True))

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()

def repo_hash():
    return tree_hash([p for p in glob.glob(SRC + "/**/*", recursive=True) if os.path.isfile(p)])

def _run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if "error" in l or "undefined reference" in l]
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), "\n".join(errs[:12])[:3000] or r.stdout[-2000:]))

def build(name, units, flags, link=("-lpthread",), cxx="g++", with_repo=True, repo_flags=None, share=None):
    """units: list of (source path, extra flags, object name); with_repo: True or a list of sources;
    share: directory of objects that several programs use. Returns the path of the program."""
    hfiles = [p for p in glob.glob(HARN + "/**/*", recursive=True) if os.path.isfile(p)]
    base = repo_hash() + tree_hash(hfiles)
    out = os.path.join(BUILD, name)
    os.makedirs(out, exist_ok=True)
    jobs = []
    for src, extra, obj in units:
        jobs.append((src, list(flags) + list(extra), os.path.join(out, obj + ".o")))
    if with_repo:
        lib = os.path.join(BUILD, share) if share else out
        os.makedirs(lib, exist_ok=True)
        for p in (repo_sources() if with_repo is True else with_repo):
            jobs.append((p, list(repo_flags if repo_flags is not None else flags),
                         os.path.join(lib, "repo_" + os.path.relpath(p, SRC).replace("/", "_") + ".o")))
    def one(j):
        src, fl, obj = j
        key = hashlib.sha256((base + cxx + " ".join(fl) + src).encode()).hexdigest()
        stamp = obj + ".key"
        if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
            return obj
        if os.path.exists(stamp):
            os.remove(stamp)
        _run([cxx] + fl + ["-I" + SRC, "-I" + HARN, "-c", src, "-o", obj], None)
        with open(stamp, "w") as f:
            f.write(key)
        return obj
    jobs.sort(key=lambda j: 0 if "ops" in j[0] or "_type" in j[0] or "driver" in j[0] or "Vault" in j[0] else 1)
    with ThreadPoolExecutor(max_workers=8) as ex:
        objs = sorted(ex.map(one, jobs), key=lambda o: "concdriver.o" in o)
    exe = os.path.join(out, name)
    key = hashlib.sha256((base + " ".join(objs) + " ".join(flags) + " ".join(link)).encode()).hexdigest()
    if not (os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key):
        if os.path.exists(exe + ".key"):
            os.remove(exe + ".key")
        _run([cxx] + list(flags) + objs + ["-o", exe] + list(link), None)
        with open(exe + ".key", "w") as f:
            f.write(key)
    return exe

SAN = ["-std=c++17", "-O1", "-g", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-w"]
TYPES = [("int", "int"), ("str", "std::string"), ("dbl", "double"), ("bool", "bool"), ("u64", "std::uint64_t"), ("cus", "Cus")]

def driver():
    units = [(HARN + "/driver.cpp", [], "driver"), (HARN + "/ops_req.cpp", [], "ops_req")]
    for n, t in TYPES:
        units.append((HARN + "/ops_type.cpp", ["-DOPS_T=" + t, "-DOPS_F=MakeOps_" + n], "ops_" + n))
    return build("driver", units, SAN)

CSV_TYPES = [("str", "std::string"), ("bool", "bool"), ("i16", "std::int16_t"), ("u16", "std::uint16_t"), ("i32", "std::int32_t"), ("u32", "std::uint32_t"),
             ("i64", "std::int64_t"), ("u64", "std::uint64_t"), ("f32", "float"), ("f64", "double")]

def csvdriver():
    units = [(HARN + "/csvdriver.cpp", [], "csvdriver")]
    for n, t in CSV_TYPES:
        units.append((HARN + "/csv_type.cpp", ["-DOPS_T=" + t, "-DOPS_N=" + n], "csv_" + n))
    return build("csvdriver", units, SAN)

def saverdriver():
    units = [(HARN + "/saverdriver.cpp", [], "saverdriver")]
    try:
        return build("saverdriver", units, SAN, with_repo=[os.path.join(SRC, "DataSaver.cpp")])
    except BuildError:
        return build("saverdriver", units, SAN)

TSAN = ["-std=c++17", "-O1", "-g", "-DNDEBUG", "-fsanitize=thread", "-w"]

def uuiddriver(race=False):
    units = [(HARN + "/uuiddriver.cpp", [], "uuiddriver")]
    name, flags = ("uuiddriver_race", TSAN) if race else ("uuiddriver", SAN)
    try:
        return build(name, units, flags, with_repo=[os.path.join(SRC, "Uuid", "Uuid.cpp")])
    except BuildError:
        return build(name, units, flags)

# The library under the scheduler of harness/sim: its synchronisation primitives are replaced (-include shim.h)
SIM = HARN + "/sim"
SIMFLAGS = SAN + ["-I" + SIM]
SHIM = ["-include", SIM + "/shim.h"]

def lockdriver():
    units = [(SIM + "/simsched.cpp", [], "simsched"), (SIM + "/race.cpp", [], "race"), (SIM + "/lockdriver.cpp", SHIM, "lockdriver")]
    lock = os.path.join(SRC, "ReadWriteMutex.cpp")
    try:
        return build("lockdriver", units, SIMFLAGS, repo_flags=SIMFLAGS + SHIM, share="simlib", with_repo=[lock])
    except BuildError:
        return build("lockdriver", units, SIMFLAGS, repo_flags=SIMFLAGS + SHIM, share="simlib")

# The library with every memory access tracked (race.cpp takes the place of libtsan)
CONC = ["-std=c++17", "-O1", "-g", "-DNDEBUG", "-w", "-DCONC_DRIVER", "-I" + SIM] + SHIM
TRACK = CONC + ["-fsanitize=thread"]

def concdriver():
    units = [(HARN + "/ops_type.cpp", ["-fsanitize=thread", "-DOPS_T=" + t, "-DOPS_F=MakeOps_" + n], "ops_" + n) for n, t in TYPES]
    units += [(HARN + "/ops_req.cpp", ["-fsanitize=thread"], "ops_req"), (SIM + "/concdriver.cpp", [], "concdriver")]
    for u in ("simsched", "race"):
        units.append((SIM + "/" + u + ".cpp", ["-O2"], u))
    return build("concdriver", units, CONC, repo_flags=TRACK)

if __name__ == "__main__":
    for n in sys.argv[1:]:
        print(globals()[n]())
