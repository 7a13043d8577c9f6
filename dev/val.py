#!/usr/bin/env python3
# val.py spec [n] : validate the histories of the last try.sh with TLC (development helper)
import sys, glob, json
sys.path.insert(0, '/verif/run')
from vlib import *
spec = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 4000
L = [l.strip() for f in sorted(glob.glob('/tmp/try.*.nd')) for l in open(f)]
L = L[:n]
import time; t = time.time()
rej, d, g = validate(spec, L, '/tmp', 'val', 4, 2)
print(len(L), 'histories', d, 'states', round(time.time() - t, 1), 's; rejected', len(rej))
for j, at in rej[:6]:
    h = json.loads(L[j]); print(h['id'], {k: v for k, v in h.items() if k != 'ev'}, 'event', at); 
    for i, e in enumerate(h['ev'][:at + 1]): print('   ', i, json.dumps(e)) if i > at - 40 else None
    print(signature(h, at))
