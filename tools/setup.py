#!/usr/bin/env python3
"""Setup: checks that the tools are there, that the specification parses and that the harness builds."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
run = vt.Run("setup", "quick", int(os.environ.get("VERIF_SEED") or 1))
for f in sorted(os.listdir(vt.SPEC)):
    if f.endswith(".tla"):
        p = subprocess.run(["java", "-cp", vt.JARS, "tla2sany.SANY", f], cwd=vt.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout)
            sys.exit(1)
        print("parsed", f)
for c in sorted(os.listdir(os.path.join(vt.HARNESS, "cmd"))):
    run.build(c, catalog=(c in ("codec", "conc")))
