SPECIFICATION Spec
CONSTANTS T = {a, b}
 Rounds = 4
 Recheck = TRUE
SYMMETRY Sym
INVARIANTS NoUseAfterFree
