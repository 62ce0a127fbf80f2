#!/usr/bin/env python3
"""Warms the build cache: compiles the monitors once in every build mode."""
import os, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import check
for mode in ("plain", "race", "overflow", "trace", "yield"):
    w = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        _, dropped, _ = check.build(mode, w)
        print("built", mode, "bridges dropped:", dropped)
    except check.Broken as e:
        print("setup:", mode, str(e)[-2000:])
        sys.exit(1 if mode == "plain" else 0)
    finally:
        shutil.rmtree(w, ignore_errors=True)
