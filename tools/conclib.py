"""Checks of concurrent behaviour: programs of several threads are run in the real code under the scheduler of
harness/sim; the traces of all schedules of a program form a tree that TLC judges (TraceRWLock, TraceConc)."""
import bisect, json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import mvlib, mvbuild
from mvlib import CheckError, CORES, SEED, tlc, tlc_stats

def drive(exe, programs, trace, workdir, opts, seed, only=None):
    pf = trace + ".programs"
    with open(pf, "w") as f:
        f.write("".join(p + "\n" for p in programs))
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=1"
    cmd = [exe, pf, trace, "--seed", str(seed)]
    for k, v in opts.items():
        cmd += ["--" + k, str(v)]
    if only is not None:
        cmd += ["--only", str(only)]
    try:
        r = subprocess.run(cmd, env=env, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=3000)
    except subprocess.TimeoutExpired:
        raise CheckError("the driver did not finish")
    err = r.stderr.decode("utf8", "replace")
    if r.returncode != 0:
        raise CheckError("driver error: " + err[-2000:])
    return err

def validate(module, trace, tmp, timeout=3000):
    rc, out = tlc(module, module + ".cfg", tmp, {"TRACE": trace}, 1, timeout, heap="4g")
    rej = mvlib.rejections(out)
    m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
    if rc != 0 or not m:
        raise CheckError("trace validation did not finish (%s):\n%s" % (trace, out[-3000:]))
    return sorted(rej), int(m.group(1)), tlc_stats(out)

def path_of(lines, node):
    """The events that lead to the node, and the schedule of a run that had them."""
    begin = node
    while '"e":"Begin"' not in lines[begin - 1]:
        begin -= 1
    end = begin
    while end < len(lines) and '"e":"Begin"' not in lines[end] and '"e":"Eof"' not in lines[end]:
        end += 1
    ev = {i: json.loads(lines[i - 1]) for i in range(begin, end + 1)}
    parent = {c: i for i, e in ev.items() for c in e["k"]}
    path = [node]
    while path[-1] in parent:
        path.append(parent[path[-1]])
    leaf = node
    while ev[leaf]["k"]:
        leaf = ev[leaf]["k"][0]
    sched = {k: ev[leaf][k] for k in ("d", "rnd", "pm") if k in ev[leaf]}
    out = []
    for i in reversed(path):
        e = dict(ev[i])
        for k in ("k", "d", "rnd", "pm"):
            e.pop(k, None)
        out.append(e)
    return ev[begin]["i"], out, sched

def explore(run, exe, module, programs, opts, label, describe, maxreport=3, seed=None, keep=lambda diag, prog: True):
    """Runs the programs and judges all traces."""
    seed = SEED if seed is None else seed
    if not programs:
        return
    shards = [programs[i::CORES] for i in range(CORES) if programs[i::CORES]]
    def one(i):
        trace = os.path.join(run.tmp, "c_%s_%d.ndjson" % (label, i))
        err = drive(exe, shards[i], trace, run.tmp, opts, seed)
        rej, n, st = validate(module, trace, run.tmp)
        return trace, err, rej, n, st
    with ThreadPoolExecutor(max_workers=CORES) as ex:
        res = list(ex.map(one, range(len(shards))))
    for i, (trace, err, rej, n, st) in enumerate(res):
        lines = open(trace, errors="replace").read().split("\n")
        while lines and not lines[-1]:
            lines.pop()
        eof = json.loads(lines[-1])
        if not rej and n < len(lines) - 1:
            raise CheckError("not all events were judged: %d of %d" % (n, len(lines) - 1))
        run.add("programs", len(shards[i]))
        run.add("schedules_run", eof.get("runs", 0))
        run.add("traces_validated_against_impl", sum(1 for l in lines if '"e":"End"' in l))
        run.add("events_validated", n)
        run.add("states", st[0])
        run.add("transitions", st[1])
        if i == 0:
            run.sample(json.loads(shards[0][0]))
        seen = set()
        begins = [k + 1 for k, l in enumerate(lines) if '"e":"Begin"' in l] if rej else []
        number = {b: json.loads(lines[b - 1])["i"] for b in begins}
        for node, call, diag in rej:
            pi = number[begins[bisect.bisect_right(begins, node) - 1]]
            if pi in seen or len(run.violations) >= maxreport or not keep(diag, json.loads(shards[i][pi])):
                continue
            seen.add(pi)
            again = os.path.join(run.tmp, "again.ndjson")
            err2 = drive(exe, shards[i], again, run.tmp, opts, seed, only=pi)
            rej2, _, _ = validate(module, again, run.tmp)
            rej2 = [r for r in rej2 if keep(r[2], json.loads(shards[i][pi]))]
            if not rej2:
                print("note: a rejection of program %d did not repeat: %s %s" % (pi, call, diag), flush=True)
                continue
            l2 = open(again, errors="replace").read().split("\n")
            _, events, sched = path_of(l2, rej2[0][0])
            sig = describe(rej2[0][1], rej2[0][2], json.loads(shards[i][pi]))
            run.violation(sig, {
                "module": module + "\n",
                "program.json": shards[i][pi] + "\n",
                "options.json": json.dumps({"opts": opts, "seed": seed, "index": pi}) + "\n",
                "schedule.json": json.dumps(sched) + "\n",
                "trace.ndjson": "\n".join(json.dumps(e) for e in events) + "\n",
                "stderr.txt": err2[-12000:],
                "replay.sh": "#!/bin/sh\n# runs the program in the code of /repo in the same schedules and judges the traces\ncd %s && exec python3 tools/replay.py '%s'\n"
                             % (mvlib.VERIF, "$(dirname \"$0\")")})
        os.remove(trace)

def replay(d, module, tmp):
    o = json.load(open(os.path.join(d, "options.json")))
    prog = open(os.path.join(d, "program.json")).read().strip()
    trace = os.path.join(tmp, "trace.ndjson")
    exe = mvbuild.lockdriver() if module == "TraceRWLock" else mvbuild.concdriver()
    err = drive(exe, ["{}"] * o["index"] + [prog], trace, tmp, o["opts"], o["seed"], only=o["index"])
    rej, _, _ = validate(module, trace, tmp)
    lines = open(trace, errors="replace").read().split("\n")
    for node, call, diag in rej[:3]:
        _, events, sched = path_of(lines, node)
        print("rejected: %s: %s, schedule %s" % (call, diag, json.dumps(sched)))
        for e in events:
            print("  " + json.dumps(e))
    print(err)
    print("REJECTED" if rej else "accepted: the violation does not occur")
    return 1 if rej else 0

# ------------------------------------------------------------------ locks
def words(run, kind, n, locks):
    rc, out = tlc("GenRW", "GenRW.cfg", run.tmp, {"KIND": kind, "N": str(n), "LOCKS": str(locks)}, 1)
    if rc != 0:
        raise CheckError("program generation failed:\n" + out[-2000:])
    return sorted(json.loads(l)[7:] for l in out.splitlines() if l.startswith('"SCRIPT '))

def program(kind, ws):
    return '{"k":"%s","p":[%s]}' % (kind, ",".join(ws))

def multisets(ws, k):
    from itertools import combinations_with_replacement
    return list(combinations_with_replacement(ws, k))

def lock_check(prop, thorough):
    run = mvlib.Run(prop, "model_checking", [
        "programs of at most 4 threads, 2 lock objects and 3 (thorough: 4) acquisitions per thread, in nests in which correct users cannot block each other",
        "schedules switch at the operations of the standard primitives (sequentially consistent atomics, which is what the code asks for)",
        "Disable() is only used by the destructor of the vault and is outside"])
    # the algorithm refines the specification, and every call returns under fair scheduling
    mvlib.model_check(run, "RWMutexImpl", "RWMutexImpl.cfg", {"DEPTH": "3" if thorough else "2"}, timeout=3000)
    mvlib.model_check(run, "RWMutexImpl", "RWMutexLive.cfg", {"DEPTH": "3" if thorough else "2"}, timeout=3000)
    mvlib.model_check(run, "RWMutexImpl", "RWMutexLive3.cfg", {"DEPTH": "2" if thorough else "1"}, timeout=3000)
    if thorough:
        for v, cfg in (("no flag", "RWMutexLive.cfg"), ("if", "RWMutexImpl.cfg"), ("notify once", "RWMutexLive.cfg")):
            mvlib.model_variant_fails(run, "RWMutexImpl", cfg, {"DEPTH": "2", "VARIANT": v})
    exe = mvbuild.lockdriver()
    rnd = random.Random(SEED)
    W = {(k, n, l): words(run, k, n, l) for k in ("rec", "plain") for l in (1, 2) for n in ((1, 2, 3, 4) if thorough else (1, 2, 3))}
    def upto(k, n, l):
        return [w for i in range(1, n + 1) for w in W[(k, i, l)]]
    def some(ps, n):
        return ps if len(ps) <= n else rnd.sample(ps, n)
    def describe(call, diag, p):
        return "%s: %s (%s lock, threads %s)" % (call, diag, p["k"], json.dumps(p["p"]))
    def keep(diag, p):
        """Which of the two properties a rejection is about (a lock that is never released can be either)"""
        nests = p["k"] == "rec" and any(t[i][0] != "u" and t[i + 1][0] != "u" for t in p["p"] for i in range(len(t) - 1))
        stuck = diag in ("Deadlock", "Livelock", "Hang") or "stuck" in diag
        if prop == "C13":
            return "barging" not in diag and (nests or not stuck)
        return diag != "exclusion"
    F = 12 if thorough else 1
    deep = {"bound": 4 if thorough else 3, "cap": 60000 if thorough else 6000, "random": 400 if thorough else 60, "leaves": 6000 if thorough else 800}
    plan = []
    for k in ("plain", "rec"):
        plan.append([program(k, p) for p in multisets(upto(k, 2, 1), 2)])
        plan.append([program(k, p) for p in some(multisets(upto(k, 2, 1), 3), 70 * F)])
        plan.append([program(k, p) for p in some(multisets(upto(k, 1, 1), 4), 5 * F)])
        plan.append([program(k, p) for p in some(multisets(upto(k, 3, 2), 2), 60 * F)])
        plan.append([program(k, p) for p in [tuple(rnd.sample(upto(k, 3, 2), 3)) for _ in range(40 * F)]])
        plan.append([program(k, p) for p in [tuple(rnd.sample(W[(k, 3, 1)], min(3, len(W[(k, 3, 1)])))) for _ in range(20 * F)]])
        if thorough:
            plan.append([program(k, p) for p in [tuple(rnd.sample(W[(k, 4, 2)], 2)) for _ in range(200)]])
    ps = [p for part in plan for p in part]
    rnd.shuffle(ps)
    explore(run, exe, "TraceRWLock", ps, deep, "lock", describe, keep=keep)
    return run.finish()

# ------------------------------------------------------------------ vault, sets and refs
STUCK = ("Deadlock", "Livelock", "Hang", "a lock is still held in the end", "a locked mutex is destroyed")

def conc_programs(run, kind, nprog=0, seed=0):
    rc, out = tlc("GenConc", "GenConc.cfg", run.tmp, {"KIND": kind, "NPROG": str(nprog), "SEED": str(seed)}, 1, heap="4g")
    if rc != 0:
        raise CheckError("program generation failed:\n" + out[-2000:])
    init = [json.loads(l)[5:] for l in out.splitlines() if l.startswith('"INIT ')][0]
    return ['{"init":%s,"p":%s}' % (init, p) for p in sorted({json.loads(l)[5:] for l in out.splitlines() if l.startswith('"PROG ')})]

def conc_check(prop, thorough):
    run = mvlib.Run(prop, "model_checking", [
        "programs of 2 or 3 threads, at most 3 calls (with the calls of their callbacks) per thread, on 2 or 3 vaults; every set and ref is used by one thread only; no vault is destroyed while others use it",
        "schedules switch at the operations of the standard synchronization primitives; plain accesses are watched for data races (happens-before), so that switching nowhere else loses nothing",
        "callbacks make reading calls only"])
    # how the calls lock, above the read-write lock
    mvlib.model_check(run, "VaultLocks", "VaultLocks.cfg", {"CALLS": "1"}, timeout=600)
    if thorough:
        mvlib.model_check(run, "VaultLocks", "VaultLocksLive.cfg", {"CALLS": "1"}, timeout=3000)
        mvlib.model_check(run, "VaultLocks", "VaultLocks.cfg", {"CALLS": "2"}, timeout=6000)
        for v in ("no second look", "no order"):
            mvlib.model_variant_fails(run, "VaultLocks", "VaultLocks.cfg", {"CALLS": "1", "VARIANT": v})
    exe = mvbuild.concdriver()
    rnd = random.Random(SEED)
    pairs = conc_programs(run, "pairs")
    run.cov["pair_programs"] = len(pairs)
    if not thorough:
        pairs = rnd.sample(pairs, min(len(pairs), 1400))
    def describe(call, diag, p):
        return "%s: %s (threads %s)" % (call, diag, json.dumps(p["p"]))
    def keep(diag, p):
        """Which of the two properties a rejection is about"""
        stuck = any(diag.startswith(s) for s in STUCK) or "unlock" in diag
        return stuck == (prop == "C16")
    quick = {"bound": 2, "cap": 60, "random": 8, "leaves": 60}
    deep = {"bound": 2, "cap": 1500, "random": 100, "leaves": 1500}
    explore(run, exe, "TraceConc", pairs, deep if thorough else quick, "pairs", describe, keep=keep)
    for i in range(8 if thorough else 1):
        progs = conc_programs(run, "rand", 3000 if thorough else 300, SEED + i)
        explore(run, exe, "TraceConc", progs, {"bound": 2, "cap": 800 if thorough else 60, "random": 200 if thorough else 30, "leaves": 1000 if thorough else 90}, "rand%d" % i, describe, keep=keep)
    return run.finish()
