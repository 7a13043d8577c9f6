SPECIFICATION Spec
CONSTANTS T = {a, b, c}
 Ops = 2
 Defect = "exit"
SYMMETRY Sym
INVARIANT Exclusive
