#!/usr/bin/env python3
"""setup: pre-builds library variants and check binaries"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props
done = set()
for pid, s in props.ALL.items():
    for r in s["runs"]:
        print(pid, build.build_bin(pid, r["variant"], r["files"], r.get("ld", ())), flush=True)
