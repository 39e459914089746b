#!/usr/bin/env python3
"""replay.py FILE: rebuilds the native harness from /repo's current sources and runs the recorded counterexample on it."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
d = json.load(open(sys.argv[1]))
os.makedirs(run.VERIF + "/build", exist_ok=True)
w = tempfile.mkdtemp(prefix="replay-", dir=run.VERIF + "/build")
try:
    if run.build(d["property"], os.path.join(run.VERIF, d["harness_file"]), w) is None: sys.exit(2)
    rc, out = run.native(w, d["harness"], d["inputs"])
    print(out, "exit", rc)
    sys.exit(0 if rc in (0, 77) else 1)
finally:
    shutil.rmtree(w, ignore_errors=True)
