SPECIFICATION Spec
CONSTANTS T = {a, b, c}
 Ops = 2
 Defect = "noregister"
SYMMETRY Sym
INVARIANT Exclusive
