SPECIFICATION Spec
CONSTANTS T = {a, b, c}
 Rounds = 2
 MaxEpoch = 3
 Defect = "none"
SYMMETRY Sym
INVARIANT NoUseAfterFree
