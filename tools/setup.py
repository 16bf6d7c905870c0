#!/usr/bin/env python3
"""Checks that the tools are there and the specifications parse; the checks build what they need themselves."""
import os, subprocess, sys
import vf

bad = 0
for f in sorted(os.listdir(vf.SPEC)):
    if f.endswith(".tla"):
        r = vf.sh(["tla-sany", f], cwd=vf.SPEC)
        ok = r.returncode == 0 and "Semantic errors" not in r.stdout and "Parse Error" not in r.stdout
        print(f, "ok" if ok else r.stdout[-800:])
        bad += not ok
for t in (["g++", "--version"], ["mpicxx", "--version"], ["java", "-version"]):
    bad += vf.sh(t).returncode != 0
sys.exit(1 if bad else 0)
