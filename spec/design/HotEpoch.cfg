SPECIFICATION Spec
CONSTANTS T = {a, b}
 Rounds = 3
 Recheck = TRUE
SYMMETRY Sym
INVARIANTS NoUseAfterFree
