SPECIFICATION Spec
CONSTANTS T = {a, b}
 Rounds = 3
 MaxEpoch = 4
 Early = TRUE
SYMMETRY Sym
INVARIANT NoUseAfterFree
