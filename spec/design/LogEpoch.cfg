SPECIFICATION Spec
CONSTANTS Logs = {l1, l2} Workers = {w1,w2} MaxC = 2 MaxE = 2 Cap = 2
LateWake = FALSE
Swallow = FALSE
NoMark = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
SYMMETRY Symm
