SPECIFICATION Spec
CONSTANTS T = {a, b}
 Rounds = 5
 Recheck = FALSE
SYMMETRY Sym
INVARIANTS NoUseAfterFree
