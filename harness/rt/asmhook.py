"""Put a call to vs_asm_point in front of every locked instruction and full fence that comes from inline assembly."""
import re, sys
out, app = [], False
for l in open(sys.argv[1], errors="surrogateescape"):
    if l.startswith("#APP"):
        app = True
    elif l.startswith("#NO_APP"):
        app = False
    elif app and re.search(r"\block\b|\bmfence\b|\bxchg[bwlq]?\b[^,]*,\s*[^%,]*\(", l):
        out.append("\tcall\tvs_asm_point\n")
    out.append(l)
open(sys.argv[2], "w", errors="surrogateescape").writelines(out)
