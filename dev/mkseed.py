#!/usr/bin/env python3
"""mkseed.py <id> <property> <driver> <kind> <secs> "<needs>" "<what_it_breaks>" : turn the uncommitted change in
/tmp/wt (a copy of /repo) into /verif/seeded/<id>/ with a self-contained demonstration (own copy of the scheduler)."""
import sys, os, json, subprocess, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "run"))
from props import TARGETS
from vlib import TSAN
sid, prop, drv, kind, secs, needs, what = sys.argv[1:8]
d = os.path.join(ROOT, "seeded", sid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
diff = subprocess.run(["git", "-C", "/tmp/wt", "diff"], capture_output=True, text=True).stdout
assert diff.strip()
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, "meta.json"), "w"), indent=1)
t = TARGETS[drv]
hd = os.path.join(d, "h"); os.makedirs(hd)
shutil.copytree(os.path.join(ROOT, "harness/rt"), os.path.join(hd, "rt"))
if os.path.isdir(os.path.join(ROOT, "harness/shim")):
    shutil.copytree(os.path.join(ROOT, "harness/shim"), os.path.join(hd, "shim"))
L = ["#!/bin/bash", "# exit 0: the property held on every explored schedule; 1: a violating execution was found", 'h="$(cd "$(dirname "$0")" && pwd)/h"; r="$(pwd)"; w=$(mktemp -d); trap "rm -rf $w" EXIT', "set -e"]
srcs = [("rt/sched.cpp", False, []), ("rt/prefilter.cpp", False, [])] + t["src"]
def q(f): return "'" + f.replace("@SHIM", "'\"$h\"'/shim").replace("@HARN", "'\"$h\"'").replace("@", "'\"$r\"'/") + "'"
for i, (p, inst, extra) in enumerate(srcs):
    if p.startswith("@"): path = '"$r"/' + p[1:]
    else:
        dst = os.path.join(hd, p); os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.exists(dst): shutil.copy(os.path.join(ROOT, "harness", p), dst)
        path = '"$h"/' + p
    isc = p.endswith(".c")
    fl = (t.get("flags", []) if i > 1 else []) + extra
    cmd = ("gcc" if isc else "g++") + " -O2 -g1 -w -c %s -o $w/%d.o " % (path, i) + " ".join(q(f) for f in fl) + ' -I"$h" '
    if not isc and not any(f.startswith("-std=") for f in fl): cmd += "-std=c++17 "
    if inst: cmd += " ".join(TSAN)
    L.append("(" + cmd + (" && objcopy " + " ".join("--redefine-sym=%s=vs_%s" % (f, f) for f in ("memcpy", "memmove", "memset", "memcmp", "strcmp", "strlen")) + " $w/%d.o" % i if inst else "") + ") & p%d=$!" % i)
for i in range(len(srcs)): L.append("wait $p%d" % i)
L.append(t.get("ld", "g++") + " -o $w/x " + " ".join("$w/%d.o" % i for i in range(len(srcs))) + " " + " ".join(t.get("libs", [])) + " -lpthread -ldl")
for b in t.get("post", []): L.append(b)
L.append("set +e")
L.append("for i in 0 1 2 3 4 5 6 7; do $w/x --out $w/$i.nd --seed $((7000+i)) --n 100000000 --secs %s --kind %s --keep 1 > $w/$i.st 2>&1 & done; wait" % (secs, kind))
L.append("""cat $w/*.st
python3 - $w <<'P'
import sys,json
bad=0;n=0
for i in range(8):
    ls=[l for l in open(sys.argv[1]+'/%d.st'%i) if l.startswith('{')]
    s=json.loads(ls[-1]); n+=s['execs']; bad+=s['suspicious']+s['crashes']
print(n,'executions,',bad,'violating')
sys.exit(1 if bad or n==0 else 0)
P""")
open(os.path.join(d, "demo.sh"), "w").write("\n".join(L) + "\n")
print("wrote", d)
