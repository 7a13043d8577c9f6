SPECIFICATION Spec
CONSTANTS T = {a, b, c}
 Ops = 1
 Defect = "none"
SYMMETRY Sym
INVARIANT Exclusive
