SPECIFICATION Spec
CONSTANTS
  W = {a, b}
  S = {c, d}
  Sigs = 2
  Waits = 1
  Defect = "nolock"
SYMMETRY Sym
INVARIANTS Conserved Served
