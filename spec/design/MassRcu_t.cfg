SPECIFICATION Spec
CONSTANTS T = {a, b, c}
 Rounds = 2
 MaxEpoch = 4
 Early = FALSE
SYMMETRY Sym
INVARIANT NoUseAfterFree
