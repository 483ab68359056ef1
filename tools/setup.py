#!/usr/bin/env python3
"""Builds the framework from the committed files and self-tests the arithmetic of the specification."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

common.build_num()
common.build_harness()
common.build_cli()
work = os.path.join(common.BUILD, "work", "setup")
for module in ("NumTest", "ModTest"):
    with open(os.path.join(common.SPEC, module + ".cfg")) as f:
        cfg = f.read()
    t = common.tlc(module, cfg, {}, work, 600, extra=["-deadlock"])
    if not t.ok:
        print(t.out[-4000:])
        sys.exit(2)
print("setup done")
