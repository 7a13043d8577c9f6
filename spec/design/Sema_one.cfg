SPECIFICATION Spec
CONSTANTS
  W = {a, b}
  S = {c}
  Sigs = 1
  Waits = 1
  Defect = "one"
SYMMETRY Sym
INVARIANTS Conserved Served
