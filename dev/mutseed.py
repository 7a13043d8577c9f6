#!/usr/bin/env python3
"""mutseed.py FILE id seed-id driver kind secs "needs" "breaks": a mutation of FILE as a seeded change"""
import sys, os, subprocess, importlib.util
sp = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
W = "/tmp/wt"; subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
for id, prop, f, old, new, nth in m.M:
    if id != sys.argv[2]: continue
    p = os.path.join(W, f); s = open(p).read(); i = -1
    for _ in range(nth): i = s.find(old, i + 1)
    assert i >= 0
    open(p, "w").write(s[:i] + new + s[i + len(old):])
    subprocess.run(["python3", os.path.join(os.path.dirname(__file__), "mkseed.py"), sys.argv[3], prop] + sys.argv[4:9], check=True)
subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
