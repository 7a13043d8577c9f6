SPECIFICATION Spec
CONSTANTS T = {a, b, c}
 Ops = 2
 Defect = "unblock"
SYMMETRY Sym
INVARIANT Exclusive
