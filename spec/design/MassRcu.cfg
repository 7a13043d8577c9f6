SPECIFICATION Spec
CONSTANTS T = {a, b}
 Rounds = 2
 MaxEpoch = 4
 Early = FALSE
SYMMETRY Sym
INVARIANT NoUseAfterFree
