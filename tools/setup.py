#!/usr/bin/env python3
"""compile the TLC module override and parse every specification module"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, tempfile, subprocess, shutil
base = os.path.join(vlib.VERIF, ".work"); os.makedirs(base, exist_ok=True)
d = tempfile.mkdtemp(prefix="setup-", dir=base)
vlib.spec_copy(d)
bad = 0
tops = [f for f in sorted(os.listdir(d)) if f.endswith(".tla") and (f.startswith("M") and f != "Modes.tla" or f.startswith("T") and f != "TraceBase.tla")]
r = subprocess.run(["java", "-cp", vlib.CP, "tla2sany.SANY"] + tops, cwd=d, capture_output=True, text=True)
if "*** Errors" in r.stdout or "Fatal" in r.stdout or "Could not" in r.stdout:
    print(r.stdout[-3000:]); bad = 1
shutil.rmtree(d)
print("specification modules parsed: %d" % len(tops))
sys.exit(bad)
