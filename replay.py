#!/usr/bin/env python3
"""replay.py <property id> <replay file>: rebuilds and runs one saved case"""
import os, sys, re, subprocess
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build, props
pid, path = sys.argv[1], sys.argv[2]
m = re.search(r"^# run (\d+)", open(path).read(), re.M)
r = props.ALL[pid]["runs"][int(m.group(1)) if m else 0]
exe = build.build_bin(pid, r["variant"], r["files"], r.get("ld", ()))
cmd = [exe, "--prop", pid, "--replay", path, "--mode", r["mode"]] + (["--maxdim", str(r["maxdim"])] if r.get("maxdim") else [])
sys.exit(subprocess.call(cmd))
