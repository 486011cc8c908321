#!/usr/bin/env python3
"""Builds the harness once in the usual configurations (every check can also build what it needs itself)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
bins = sorted(f[:-3] for f in os.listdir(os.path.join(check.VERIF, "harness", "src", "bin")) if f.endswith(".rs"))
for n in ("dbg", "rel"):
    e = check.CONFIGS[n].build(bins[:1])
    if e:
        print(e)
        sys.exit(1)
print("ok")
