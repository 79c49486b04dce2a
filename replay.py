#!/usr/bin/env python3
"""replay.py PROPERTY REPLAY.json: run a recorded counterexample against the real code (no symbolic executor).
Exits 1 when the counterexample reproduces, 0 when it does not."""
import sys, json, tempfile, shutil, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import Native, SPECS, bad_rc
def main():
    pid, path = sys.argv[1], sys.argv[2]; r = json.load(open(path)); work = tempfile.mkdtemp(prefix="sxr_")
    try:
        print("case %s: %s: %s\n  at %s" % (r["case"], r["kind"], r.get("message", ""), r.get("location", "")))
        for n, h in r["inputs"]: print("  input %s = %s" % (n, h if len(h) < 200 else h[:200] + "..."))
        rc, o = Native(SPECS[pid], work).run(r.get("build", "asan"), r["entry"], r.get("params", {}), r["inputs"], r.get("fill"))
    finally: shutil.rmtree(work, ignore_errors=True)
    print(o[-4000:]); print("exit status %d: %s" % (rc, "REPRODUCED" if bad_rc(rc) else "not reproduced")); sys.exit(1 if bad_rc(rc) else 0)
main()
