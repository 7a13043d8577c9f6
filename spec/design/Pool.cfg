SPECIFICATION Spec
CONSTANTS
  W = {a, b}
  Jobs = 2
  Nested = 1
  Defect = "none"
SYMMETRY Sym
INVARIANTS AllDone Counts
