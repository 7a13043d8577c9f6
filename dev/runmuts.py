#!/usr/bin/env python3
"""runmuts.py FILE [id-substring] : apply each mutation of FILE to a private copy of /tmp/wt, run the property's quick check on it (development helper)"""
import sys, os, subprocess, shutil, time, importlib.util
sp = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
sub = sys.argv[2] if len(sys.argv) > 2 else ""
W = "/tmp/wtm%d" % os.getpid()
subprocess.run(["rsync", "-a", "--exclude", "_build", "--exclude", "build", "/tmp/wt/", W + "/"], check=False) if shutil.which("rsync") else shutil.copytree("/tmp/wt", W, symlinks=True)
try:
    for id, prop, f, old, new, nth in m.M:
        if sub not in id: continue
        p = os.path.join(W, f); s = open(p).read(); orig = s
        i = -1
        for _ in range(nth):
            i = s.find(old, i + 1)
        if i < 0: print(id, prop, "NOT FOUND", flush=True); continue
        open(p, "w").write(s[:i] + new + s[i + len(old):])
        t = time.time()
        r = subprocess.run(["python3", "run/check.py", prop, "quick"], cwd="/verif", env=dict(os.environ, VERIF_REPO=W, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = [l for l in r.stdout.splitlines() if l.strip()]
        what = next((l for l in last if l.startswith("history of")), "")[:140]
        print("%-28s %s %s %3.0fs %s %s" % (id, prop, "caught" if r.returncode == 1 and any(l.startswith("VIOLATION property=" + prop) for l in last) else {0: "MISSED", 2: "ERROR"}.get(r.returncode, "ERR%d" % r.returncode), time.time() - t, what, last[-1][:160] if not any(l.startswith('VIOLATION') for l in last) else ""), flush=True)
        open(p, "w").write(orig)
finally:
    shutil.rmtree(W, ignore_errors=True)
