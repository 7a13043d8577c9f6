SPECIFICATION Spec
CONSTANTS T = {a, b, c}
 Ops = 2
 Defect = "none"
SYMMETRY Sym
INVARIANT Exclusive
