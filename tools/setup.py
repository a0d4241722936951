#!/usr/bin/env python3
"""Builds the harness crates once (each check builds again what it needs)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp
for c in ("part", "full"):
    if os.path.exists(os.path.join(vp.VERIF, "harness", c, "src", "main.rs")):
        try:
            print(c, vp.build(c))
        except vp.ToolError as e:
            print(e)
