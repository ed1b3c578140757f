"""Common machinery of the checks: TLC runs, script generation, driving the real code, trace validation, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from mvbuild import VERIF, REPO, BuildError
import mvbuild

SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CORES = 8

class CheckError(Exception):
    """The check itself could not do its work (never a verdict)."""

class Run:
    """One run of one check."""
    def __init__(self, prop, level, assumptions=()):
        self.prop, self.level, self.assumptions = prop, level, list(assumptions)
        self.t0 = time.time()
        self.violations = []       # (signature, replay path)
        self.cov = {"samples": []}
        self.tmp = tempfile.mkdtemp(prefix="mv_%s_" % prop)
        self.replays = os.path.join(OUT, prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays, exist_ok=True)
        self.known = load_known(prop)

    def elapsed(self):
        return time.time() - self.t0

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=3):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, signature, files):
        """files: name -> text or bytes, written as the replay directory"""
        for k in self.known:
            if k == signature:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, signature), flush=True)
                return
        n = len(self.violations) + 1
        d = os.path.join(self.replays, "violation_%d" % n)
        os.makedirs(d, exist_ok=True)
        for name, data in files.items():
            with open(os.path.join(d, name), "wb" if isinstance(data, bytes) else "w") as f:
                f.write(data)
        with open(os.path.join(d, "README"), "w") as f:
            f.write("property %s\n%s\n" % (self.prop, signature))
        self.violations.append((signature, d))
        print("VIOLATION property=%s replay=%s" % (self.prop, d), flush=True)
        print("  " + signature, flush=True)

    def finish(self):
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print("%s: %s in %.0f s" % (self.prop, "VIOLATED" if self.violations else "held on everything explored", self.elapsed()), flush=True)
        return 1 if self.violations else 0

def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out

_n = [0]
def tlc(module, cfg, tmp, env=None, workers=1, timeout=800, extra=(), heap="3g", spec_dir=SPEC):
    """Runs TLC.  Returns (exit code, output).  Raises CheckError when TLC did not get to a verdict."""
    _n[0] += 1
    md = os.path.join(tmp, "md%d_%d" % (os.getpid(), _n[0]))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2" if workers == 1 else "-XX:ParallelGCThreads=8", "-Xss32m", "-Xmx" + heap,
           "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not finish in %d s: %s %s" % (timeout, module, cfg))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout

def tlc_stats(out):
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m.group(2).replace(",", "")), int(m.group(1).replace(",", ""))

def model_check(run, module, cfg, env=None, workers=CORES, timeout=600, heap="12g"):
    """Checks the specification itself.  A failure here is an error of the specification, not of the code."""
    rc, out = tlc(module, cfg, run.tmp, env, workers, timeout, heap=heap)
    if rc != 0:
        raise CheckError("the specification %s/%s does not satisfy its own properties:\n%s" % (module, cfg, out[-3000:]))
    d, g = tlc_stats(out)
    run.add("states", d)
    run.add("transitions", g)
    return d, g

def model_variant_fails(run, module, cfg, env, timeout=600):
    """The properties of a specification exclude a known way to get the algorithm wrong."""
    rc, out = tlc(module, cfg, run.tmp, env, CORES, timeout, heap="12g")
    if rc == 0 or not ("violated" in out or "State 2:" in out):
        raise CheckError("the properties of %s/%s do not exclude the variant %s:\n%s" % (module, cfg, env, out[-2000:]))
    run.add("rejected_variants", 1)

# ------------------------------------------------------------------ scripts of API calls
def generate(run, profile, seed, count, depth, module="GenMVault"):
    rc, out = tlc(module, module + ".cfg", run.tmp, {"PROFILE": profile, "SEED": str(seed), "NSCRIPTS": str(count), "DEPTH": str(depth)}, CORES, heap="8g")
    if rc != 0:
        raise CheckError("script generation failed (%s):\n%s" % (profile, out[-3000:]))
    scripts = []
    for line in out.splitlines():
        if line.startswith('"SCRIPT '):
            scripts.append(json.loads(line)[7:])
    scripts.sort()
    d, g = tlc_stats(out)
    run.add("states", d)
    run.add("transitions", g)
    return scripts

def explore(run, family, depth, timeout=700, module="MCMVault"):
    """Explores the specification exhaustively within the bounds of the family.  Returns its graph as scripts."""
    rc, out = tlc(module, module + ".cfg", run.tmp, {"FAMILY": family, "EMIT": "1", "DEPTH": str(depth)}, CORES, timeout, heap="10g")
    if rc != 0:
        raise CheckError("the specification does not satisfy its own properties (family %s):\n%s" % (family, "\n".join(l for l in out.splitlines() if "SCRIPT" not in l)[-3000:]))
    scripts = sorted({json.loads(line)[7:] for line in out.splitlines() if line.startswith('"SCRIPT ')})
    d, g = tlc_stats(out)
    run.add("states", d)
    run.add("transitions", g)
    return scripts

def drive(exe, scripts, trace, workdir, probe, seed, only=None):
    """Runs the scripts in the real code.  After a crash or a hang the run goes on with the next script."""
    sf = trace + ".scripts"
    with open(sf, "w") as f:
        f.write("".join(s + "\n" for s in scripts))
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:report_signal_unsafe=0"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=1"
    start, logs, crashes = 0, {}, 0
    with open(trace, "w") as out:
        while True:
            part = trace + ".part"
            cmd = ([exe] if isinstance(exe, str) else list(exe)) + [sf, part, "--from", str(start), "--probe", str(probe), "--seed", str(seed)]
            if only is not None:
                cmd += ["--only", str(only)]
            try:
                r = subprocess.run(cmd, env=env, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700)
                rc, err = r.returncode, r.stderr.decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                raise CheckError("the driver did not finish")
            lines = open(part, errors="replace").read().split("\n") if os.path.exists(part) else []
            if rc == 3:
                raise CheckError("driver error: " + err[-2000:])
            ended = any(l.startswith('{"e":"Eof"') for l in lines[-3:])
            lines = [l for l in lines if l and not l.startswith('{"e":"Eof"')]
            # a line that was cut off by a crash
            if lines and not lines[-1].endswith("}"):
                lines.pop()
            out.write("".join(l + "\n" for l in lines))
            if ended and rc == 0:
                break
            cur = start
            for l in reversed(lines):
                if l.startswith('{"e":"Begin"'):
                    cur = json.loads(l)["i"]
                    break
                if l.startswith('{"e":"End"'):
                    cur = json.loads(l)["i"] + 1
                    break
            what = "Hang" if rc == 97 else "Crash"
            out.write(json.dumps({"e": what, "i": cur}) + "\n")
            logs[cur] = err[-12000:]
            crashes += 1
            start = cur + 1
            if only is not None or start >= len(scripts) or crashes >= 5:
                break
    if os.path.exists(trace + ".part"):
        os.remove(trace + ".part")
    return logs

def rejections(out):
    """(line of the trace, call, diagnosis) of every rejected event"""
    rej = []
    for line in out.splitlines():
        if line.startswith('"REJECT '):
            rej.append(tuple(json.loads(json.loads(line)[7:])))
        elif "REJECT" in line:
            raise CheckError("unreadable rejection: " + line[:500])
    return rej
def validate(module, cfg, trace, tmp, timeout=800, env=None):
    """Trace validation.  Returns (rejections [(line, call, diagnosis)], number of lines, states)."""
    e = {"TRACE": trace}
    e.update(env or {})
    rc, out = tlc(module, cfg, tmp, e, 1, timeout)
    rej = rejections(out)
    m = re.search(r'<<"CONSUMED", (\d+)>>', out)
    if rc != 0 or not m:
        raise CheckError("trace validation did not finish (%s):\n%s" % (trace, out[-3000:]))
    return rej, int(m.group(1)), tlc_stats(out)

def script_index(lines, n):
    """Script number of the trace line n (1-based)"""
    for l in reversed(lines[:n]):
        if l.startswith('{"e":"Begin"'):
            return json.loads(l)["i"]
        if l.startswith('{"e":"Crash"') or l.startswith('{"e":"Hang"'):
            return json.loads(l)["i"]
    return 0

def conformance(run, scripts, probe=3, seed=None, exe=None, label="", maxreport=3, module="TraceMVault"):
    """Drives the real code with the scripts and validates the traces against the specification."""
    seed = SEED if seed is None else seed
    exe = exe or mvbuild.driver()
    if not scripts:
        return
    shards = [scripts[i::CORES] for i in range(CORES) if scripts[i::CORES]]
    def one(i):
        trace = os.path.join(run.tmp, "t_%s_%d.ndjson" % (label, i))
        logs = drive(exe, shards[i], trace, run.tmp, probe, seed)
        rej, lines, st = validate(module, module + ".cfg", trace, run.tmp)
        return trace, logs, rej, lines, st
    with ThreadPoolExecutor(max_workers=CORES) as ex:
        res = list(ex.map(one, range(len(shards))))
    for i, (trace, logs, rej, lines, st) in enumerate(res):
        run.add("traces_validated_against_impl", len(shards[i]))
        run.add("calls_validated", lines)
        run.add("states", st[0])
        run.add("transitions", st[1])
        if rej:
            text = open(trace, errors="replace").read().split("\n")
            for (ln, call, diag) in rej:
                if len(run.violations) >= maxreport:
                    break
                confirm(run, exe, shards[i], trace, text, ln, call, diag, logs, probe, seed, module)
        elif i == 0 and run.cov["samples"] == []:
            run.sample(json.loads(shards[i][0])[:12])
        os.remove(trace)

def confirm(run, exe, scripts, trace, text, ln, call, diag, logs, probe, seed, module):
    """A rejection counts when it happens again: alone, or (state of the process matters) in the whole shard."""
    si = script_index(text, ln)
    again = os.path.join(run.tmp, "again.ndjson")
    for only in (si, None):
        logs2 = drive(exe, scripts, again, run.tmp, probe, seed, only=only)
        rej2, _, _ = validate(module, module + ".cfg", again, run.tmp)
        t2 = open(again, errors="replace").read().split("\n")
        hit = [r for r in rej2 if script_index(t2, r[0]) == si]
        if hit:
            break
    else:
        print("note: a rejection of script %d did not repeat: %s %s" % (si, call, diag), flush=True)
        return
    ln2, call2, diag2 = hit[0]
    begin = max(k for k in range(ln2) if t2[k].startswith('{"e":"Begin"')) if any(t2[k].startswith('{"e":"Begin"') for k in range(ln2)) else 0
    ops = json.loads(scripts[si])
    pos = ln2 - begin - 2
    sig = "call %s: %s (call number %d of the script)" % (call2, diag2, pos + 1)
    run.violation(sig, {
        "module": module + "\n",
        "script.json": scripts[si] + "\n",
        "failing_call.json": json.dumps(ops[pos] if 0 <= pos < len(ops) else None, indent=1) + "\n",
        "trace.ndjson": "\n".join(t2[begin:ln2]) + "\n",
        "stderr.txt": "\n".join(logs2.values()),
        "replay.sh": "#!/bin/sh\n# runs the script in the code of /repo and checks the trace against the specification\ncd %s && exec python3 tools/replay.py '%s'\n"
                     % (VERIF, "$(dirname \"$0\")") })

def main(fn):
    try:
        sys.exit(fn())
    except BuildError as e:
        print("BUILD ERROR\n%s" % e, flush=True)
        sys.exit(2)
    except CheckError as e:
        print("CHECK ERROR\n%s" % e, flush=True)
        sys.exit(2)
