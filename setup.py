#!/usr/bin/env python3
"""Builds the drivers once, which also warms the build cache."""
import os, shutil, sys, tempfile
sys.argv = sys.argv[:1]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for driver, race in sorted({(d, r) for d, r, _ in check.PROPS.values()}):
        if os.path.isdir(os.path.join(check.VERIF, "harness", "cmd", driver)):
            check.build(work, driver, race)
            print("built", driver)
finally:
    shutil.rmtree(work, ignore_errors=True)
