#!/bin/bash
# mut.sh file 'python-expr old' 'new' target kind secs : one textual mutation in /tmp/wt, run the driver, restore   (development helper)
f=$1; old=$2; new=$3; tgt=$4; kind=$5; secs=${6:-6}
cd /tmp/wt && git checkout -q -- . && OLD="$old" NEW="$new" python3 - $f <<'P' || exit 1
import sys,os
p=sys.argv[1]; s=open(p).read(); o=os.environ['OLD'].encode().decode('unicode_escape'); n=os.environ['NEW'].encode().decode('unicode_escape')
assert s.count(o)>=1,(s.count(o)); print('occurrences',s.count(o)); s=s.replace(o,n,1); open(p,'w').write(s)
P
cd /verif && mkdir -p build/m && VERIF_REPO=/tmp/wt python3 - $tgt <<'P' || exit 1
import sys; sys.path.insert(0,'run')
from vlib import *; from props import *
build('/verif/build/m',dict(TARGETS[sys.argv[1]],name=sys.argv[1]))
P
rm -f /tmp/mt.*; for i in 0 1 2 3 4 5 6 7; do timeout 300 build/m/$tgt --out /tmp/mt.$i.nd --seed $((9000+i)) --secs $secs --n 100000000 --kind $kind --keep 10 --cpu $i $TRYARGS > /tmp/mt.$i.st 2>&1 & done; wait
cat /tmp/mt.*.st | python3 -c "
import sys,json,collections
c=collections.Counter()
for l in sys.stdin:
    if l.startswith('{'):
        for k,v in json.loads(l).items(): c[k]+=v
print(dict(c))"
cd /tmp/wt && git checkout -q -- .
