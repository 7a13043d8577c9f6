#!/bin/bash
# build one driver into /verif/build/x (development helper)
cd /verif && python3 - "$@" <<'PY'
import sys; sys.path.insert(0,'run')
from vlib import *; from props import *
for n in sys.argv[1:]: print(build('/verif/build/x',dict(TARGETS[n],name=n)))
PY
