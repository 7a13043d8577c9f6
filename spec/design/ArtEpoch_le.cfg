SPECIFICATION Spec
CONSTANTS T = {a, b}
 Rounds = 3
 MaxEpoch = 3
 Defect = "le"
SYMMETRY Sym
INVARIANT NoUseAfterFree
