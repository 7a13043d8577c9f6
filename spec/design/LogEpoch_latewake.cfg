SPECIFICATION Spec
CONSTANTS Logs = {l1, l2} Workers = {w1,w2} MaxC = 2 MaxE = 3 Cap = 2
LateWake = TRUE
Swallow = FALSE
NoMark = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
SYMMETRY Symm
