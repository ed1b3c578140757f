#!/usr/bin/env python3
"""Decides one property: python3 tools/check.py C01 [--thorough]"""
import subprocess, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
    sys.argv.remove("--thorough")
elif "--quick" in sys.argv:
    os.environ["VERIF_TIER"] = "quick"
    sys.argv.remove("--quick")
import mvlib
from mvlib import Run, SEED, THOROUGH

# property -> (profiles of random scripts, families of the exhaustive exploration)
VAULT = {
    "C01": (["data", "bulk"], ["data"]),
    "C02": (["uniq"], ["uniq"]),
    "C03": (["err"], ["uniq", "schema"]),
    "C04": (["req"], ["sets"]),
    "C05": (["sets"], ["sets"]),
    "C06": (["alg"], ["alg"]),
    "C07": (["refs"], ["refs"]),
    "C08": (["keys"], ["schema"]),
    "C09": (["copy"], ["copy"]),
    "C10": (["scopy"], ["life"]),
    "C17": (["types"], ["schema"]),
    "C18": (["views"], ["data"]),
    "C19": (["life"], ["life"]),
    "C20": (["sort"], ["data"]),
}
ASSUME = ["calls are made by one thread (C15 and C16 cover several)",
          "values come from ordered domains of 2 to 10 values per type (int, std::string, double, bool, std::uint64_t, a user type); at most 70 records (some hundred in few scripts), 5 keys, 3 vaults, 4 sets and 6 refs at once",
          "a default constructed VaultRequest, an unknown column passed to Print and a set object used by two threads are outside the specification"]

def vault_check(prop):
    run = Run(prop, "model_checking", ASSUME)
    profiles, families = VAULT[prop]
    exe = mvlib.mvbuild.driver()
    # 1. the specification itself, exhaustively within small bounds; its graph gives scripts
    for fam in families:
        depth = {"copy": 5, "life": 5}.get(fam, 6) if THOROUGH else {"copy": 3, "life": 3}.get(fam, 4)
        scripts = mvlib.explore(run, fam, depth, timeout=3000)
        limit = 80000 if THOROUGH else 2500
        if len(scripts) > limit:
            run.cov["graph_scripts_sampled_" + fam] = "%d of %d" % (limit, len(scripts))
            scripts = random.Random(SEED).sample(scripts, limit)
        else:
            run.cov["graph_scripts_all_" + fam] = len(scripts)
        mvlib.conformance(run, scripts, probe=6, exe=exe, label="mc_" + fam)
    # 2. long random behaviours of the specification
    rounds = 12 if THOROUGH else 1
    for i in range(rounds):
        for p in profiles + ["all"]:
            if run.violations and run.elapsed() > 120:
                break
            n = (150 if p == "all" else 700 // len(profiles)) * (4 if THOROUGH else 1)
            depth = 60 if p == "bulk" else 45 + 10 * (i % 4)
            scripts = mvlib.generate(run, p, SEED + 1000 * i, n, depth)
            mvlib.conformance(run, scripts, probe=4, exe=exe, seed=SEED + i, label=p)
        # some hundred records at once (limits and counters beyond 255)
        if not (run.violations and run.elapsed() > 120):
            scripts = mvlib.generate(run, "huge", SEED + 1000 * i + 17 * int(prop[1:]), 12 if THOROUGH else 3, 32)
            mvlib.conformance(run, scripts, probe=2, exe=exe, seed=SEED + i, label="huge")
    return run.finish()

# ------------------------------------------------------------------ CSV
CSV_ASSUME = ["calls are made by one thread",
              "a separator is one character other than quote, CR and LF",
              "what rows a file with malformed quoting gives, and numbers with more digits than their type holds exactly, are not specified: only that the call ends, that earlier records stay and that unique keys hold"]
A = [65]
def texts_of(run, family, length):
    rc, out = mvlib.tlc("MCCsv", "MCCsv.cfg", run.tmp, {"FAMILY": family, "LEN": str(length), "EMIT": "1"}, 8, 800, heap="8g")
    if rc != 0:
        raise mvlib.CheckError("the specification does not satisfy its own properties (%s):\n%s" % (family, out[-2000:]))
    d, g = mvlib.tlc_stats(out)
    run.add("states", d)
    run.add("transitions", g)
    return sorted({json.loads(l)[5:] for l in out.splitlines() if l.startswith('"TEXT ')})

def key(k, t, u=False, d=()):
    return {"o": "Key", "v": 1, "k": k, "t": t, "u": u, "d": list(d)}
def read(v, text, sep, mode, keys=(), hm="none", src="text"):
    return {"o": "Read", "v": v, "src": src, "text": text, "sep": sep, "mode": mode, "keys": list(keys), "hm": hm, "miss": False}
def batches(items, n, setup, ops):
    out = []
    for i in range(0, len(items), n):
        s = list(setup)
        for x in items[i:i + n]:
            s += ops(x)
        out.append(json.dumps(s))
    return out
NEW, DROP1, DROP2 = {"o": "New", "v": 1}, {"o": "Drop", "v": 1}, {"o": "Drop", "v": 2}
CANON0 = {"str": [], "bool": [ord(c) for c in "false"], "f32": [ord(c) for c in "0.000000"], "f64": [ord(c) for c in "0.000000"]}

def csv_check(prop):
    run = Run(prop, "model_checking", CSV_ASSUME)
    exe = mvlib.mvbuild.csvdriver()
    go = lambda scripts, label: mvlib.conformance(run, scripts, exe=exe, label=label, module="TraceCsv")
    if prop == "C11":
        mvlib.model_check(run, "MCCsv", "MCCsv.cfg", {"FAMILY": "rows2", "LEN": "1", "EMIT": "0"})
        rows = [json.loads(t)[0] for t in texts_of(run, "rows1", 4 if THOROUGH else 3)]
        run.cov["rows_written_and_read_exhaustively"] = len(rows)
        for w in (1, 2):
            for sep, hdr in ((59, True), (44, False)) if THOROUGH else ((59, True),):
                # the letters of the enumeration are a ; " CR LF
                setup = [NEW] + [key([65 + i], "str") for i in range(w)] + [{"o": "Clone", "v": 2, "src": 1}]
                go(batches([r for r in rows if len(r) == w], 60, setup, lambda r: [
                    {"o": "Rec", "v": 1, "cells": r},
                    {"o": "Save", "v": 1, "host": "v", "m": 0, "keys": [], "sep": sep, "hdr": hdr, "bad": ""},
                    read(2, [], sep, "hdr" if hdr else "order", src="last"), DROP1, DROP2]), "rows%d%d" % (w, sep))
        profile, n = "round", 1500
    else:
        texts = [json.loads(t) for t in texts_of(run, "texts", 7 if THOROUGH else 5)]
        run.cov["files_read_exhaustively"] = len(texts)
        go(batches(texts, 80, [NEW, key(A, "str"), key([66], "str")], lambda t: [read(1, t, 59, "order"), DROP1]), "order")
        go(batches(texts, 80, [NEW, key([97], "str")], lambda t: [read(1, t, 59, "handler"), DROP1]), "handler")
        nums = [json.loads(t) for t in texts_of(run, "numbers", 5 if THOROUGH else 4)]
        run.cov["number_texts_exhaustively"] = len(nums)
        sc = []
        for t in ("i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "bool"):
            sc += batches(nums, 100, [NEW, key(A, t, False, CANON0.get(t, [48]))], lambda x: [read(1, x, 59, "order"), DROP1])
        if not THOROUGH:
            sc = random.Random(SEED).sample(sc, min(len(sc), 60))
        go(sc, "numbers")
        profile, n = "import", 900
    for i in range(12 if THOROUGH else 1):
        if run.violations and run.elapsed() > 120:
            break
        go(mvlib.generate(run, profile, SEED + 1000 * i, n, 30, module="GenCsv"), profile)
        if i == 0 or THOROUGH:
            big = mvlib.generate(run, "big", SEED + 1000 * i, 8, 5, module="GenCsv")
            run.add("files_read_in_blocks", len(big))
            go(big, "big")
    return run.finish()

# ------------------------------------------------------------------ value containers
SAVER_ASSUME = ["calls are made by one thread",
                "at most 3 data savers and 3 containers at once; 10 types of values (numbers, texts, pointers, a user type), 8 keys, 2 delete functions",
                "delete functions do not touch the containers; a container that was moved from is only destroyed"]
def saver_check(prop):
    run = Run(prop, "model_checking", SAVER_ASSUME)
    exe = mvlib.mvbuild.saverdriver()
    go = lambda scripts, label: mvlib.conformance(run, scripts, exe=exe, label=label, module="TraceSaver")
    for fam in ("savers", "hash", "map", "mhash", "mmap"):
        scripts = mvlib.explore(run, fam, (6 if fam == "savers" else 5) if THOROUGH else (5 if fam == "savers" else 4), module="MCSaver")
        limit = 60000 if THOROUGH else 2500
        if len(scripts) > limit:
            run.cov["graph_scripts_sampled_" + fam] = "%d of %d" % (limit, len(scripts))
            scripts = random.Random(SEED).sample(scripts, limit)
        else:
            run.cov["graph_scripts_all_" + fam] = len(scripts)
        go(scripts, "mc_" + fam)
    for i in range(12 if THOROUGH else 1):
        if run.violations and run.elapsed() > 120:
            break
        for p in ("savers", "conts"):
            go(mvlib.generate(run, p, SEED + 1000 * i, 800, 60, module="GenSaver"), p)
    return run.finish()

UUID_ASSUME = ["randomness is judged by about 4300 identifiers per script: every free digit takes every value and no two digits depend on each other",
               "Linux names of temporary files"]

def uuid_check(prop):
    run = Run(prop, "model_checking", UUID_ASSUME)
    exe = mvlib.mvbuild.uuiddriver()
    mvlib.model_check(run, "MCUuid", "MCUuid.cfg")
    scripts = []
    for i in range(20 if THOROUGH else 1):
        scripts += mvlib.generate(run, "-", SEED + 1000 * i, 3, 0, module="GenUuid")
    mvlib.conformance(run, sorted(set(scripts)), exe=exe, label="ids", module="TraceUuid")
    # the threads of the scripts once more under a watch for data races
    race = [mvlib.mvbuild.uuiddriver(True)]
    works = lambda cmd: subprocess.run(cmd + ["/dev/null", os.path.join(run.tmp, "w")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode == 0
    if not works(race):
        race = ["setarch", "-R"] + race
    if works(race):
        mvlib.conformance(run, [s for s in scripts if '"Par"' in s][:2], exe=race, label="race", module="TraceUuid")
    else:
        run.cov["race_watch"] = "not possible here"
    return run.finish()

def main():
    prop = sys.argv[1]
    if prop == "C22":
        return uuid_check(prop)
    if prop in VAULT:
        return vault_check(prop)
    if prop in ("C11", "C12"):
        return csv_check(prop)
    if prop == "C21":
        return saver_check(prop)
    if prop in ("C13", "C14"):
        import conclib
        return conclib.lock_check(prop, THOROUGH)
    if prop in ("C15", "C16"):
        import conclib
        return conclib.conc_check(prop, THOROUGH)
    print("unknown property", prop)
    return 2

mvlib.main(main)
