#!/bin/bash
# try.sh driver kind secs [seed] : run on 8 cpus and summarise suspicious histories
rm -f /tmp/try.*; d=$1; k=$2; s=$3; seed=${4:-1}
for i in 0 1 2 3 4 5 6 7; do /verif/build/x/$d --out /tmp/try.$i.nd --seed $((seed*1000+i)) --secs $s --n 100000000 --kind $k --keep 100 --cpu $i $TRYARGS > /tmp/try.$i.st 2>&1 & done; wait
cat /tmp/try.*.st | head -8
python3 - <<'PY'
import json,collections
c=collections.Counter(); ex={}
for i in range(8):
  for l in open('/tmp/try.%d.nd'%i):
    try: h=json.loads(l)
    except Exception as e: print('bad line',l[:200]); continue
    w=[e['w'] for e in h['ev'] if e['e']=='x']
    for x in w[:1]: c[x]+=1; ex.setdefault(x,(i,h['id']))
    if h.get('sus') and not w: c['sus']+=1; ex.setdefault('sus',(i,h['id']))
print(dict(c),ex)
PY
