SPECIFICATION Spec
CONSTANTS Logs = {l1, l2} Workers = {w1,w2} MaxC = 3 MaxE = 3 Cap = 2
LateWake = FALSE
Swallow = FALSE
NoMark = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
SYMMETRY Symm
