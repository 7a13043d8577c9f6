SPECIFICATION Spec
CONSTANTS
  W = {a, b, e}
  S = {c, d}
  Sigs = 2
  Waits = 2
  Defect = "none"
SYMMETRY Sym
INVARIANTS Conserved Served
