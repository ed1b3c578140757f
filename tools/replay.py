#!/usr/bin/env python3
"""Runs the script of a violation again in the code of /repo and checks the trace: replay.py DIR"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mvlib, mvbuild, shutil, tempfile
def main():
    d = os.path.abspath(sys.argv[1])
    tmp = tempfile.mkdtemp(prefix="mv_replay_")
    try:
        mf = os.path.join(d, "module")
        module = open(mf).read().strip() if os.path.exists(mf) else "TraceMVault"
        if module in ("TraceRWLock", "TraceConc"):
            import conclib
            return conclib.replay(d, module, tmp)
        scripts = [l for l in open(os.path.join(d, "script.json")).read().split("\n") if l]
        trace = os.path.join(tmp, "trace.ndjson")
        exe = {"TraceCsv": mvbuild.csvdriver, "TraceSaver": mvbuild.saverdriver, "TraceUuid": mvbuild.uuiddriver}.get(module, mvbuild.driver)()
        logs = mvlib.drive(exe, scripts, trace, tmp, 1, mvlib.SEED)
        rej, n, _ = mvlib.validate(module, module + ".cfg", trace, tmp)
        lines = open(trace).read().split("\n")
        for ln, call, diag in rej:
            print("rejected: line %d of the trace, call %s: %s" % (ln, call, diag))
            print(lines[ln - 1])
        for l in logs.values():
            print(l)
        print("REJECTED" if rej else "accepted: the violation does not occur")
        return 1 if rej else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
mvlib.main(main)
