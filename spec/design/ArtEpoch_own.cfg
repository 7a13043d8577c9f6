SPECIFICATION Spec
CONSTANTS T = {a, b}
 Rounds = 3
 MaxEpoch = 3
 Defect = "own"
SYMMETRY Sym
INVARIANT NoUseAfterFree
