#!/usr/bin/env python3
# regenerates known_findings.json (by hand)
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(l.split(" ", 1)[::-1] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "ad3ae5e..HEAD"], capture_output=True, text=True).stdout.strip().splitlines())
def c(sub):
    r = [h for s, h in log.items() if sub in s]
    assert len(r) == 1, (sub, r)
    return r[0]
F = []
def fixed(prop, sub, what):
    h = c(sub)
    F.append(dict(property=prop, status="fixed", commit=h, what=what, line="fixed: property=%s %s %s" % (prop, h, what)))
def known(prop, match, what, driver=None):
    F.append(dict(property=prop, status="known", match=match, what=what, driver=driver))
exec(open(os.path.join(ROOT, "dev", "findings_list.py")).read())
json.dump(dict(findings=F), open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
print(len(F))
