#!/usr/bin/env python3
"""check.py ID: decide one property (see DESIGN.md)."""
import importlib, sys
import vf

WHERE = {}
for m in ("dd_checks", "py_checks", "mt_checks", "mpi_checks"):
    try:
        mod = importlib.import_module(m)
    except ModuleNotFoundError:
        continue
    WHERE.update(mod.ALL)

if __name__ == "__main__":
    fn, level = WHERE[sys.argv[1]]
    vf.main(fn, sys.argv[1], level)
