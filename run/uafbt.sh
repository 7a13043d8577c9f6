#!/bin/bash
# uafbt.sh driver kind seed idx : stacks of a use after free and of the free (development helper)
cd /verif; VS_BT=1 timeout 60 build/x/$1 --out /tmp/o.nd --seed $3 --secs 60 --n $(($4+1)) --from $4 --kind $2 --keep 100 --verbose 1 2>/tmp/bt.err >/dev/null
grep -E "USE|FREED|\+0x" /tmp/bt.err | grep -v "vd::\|std::\|libc" | head -${5:-40} | while read l; do case "$l" in USE*|FREED*) echo "$l";; *) a=$(echo "$l" | sed 's/.*(+\(0x[0-9a-f]*\)).*/\1/'); addr2line -Cfpie build/x/$1 $a | cut -c1-150;; esac; done
