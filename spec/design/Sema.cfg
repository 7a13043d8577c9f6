SPECIFICATION Spec
CONSTANTS
  W = {a, b}
  S = {c, d}
  Sigs = 2
  Waits = 1
  Defect = "none"
SYMMETRY Sym
INVARIANTS Conserved Served
