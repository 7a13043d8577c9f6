SPECIFICATION Spec
CONSTANTS
  W = {a, b, c}
  Jobs = 4
  Nested = 2
  Defect = "none"
SYMMETRY Sym
INVARIANTS AllDone Counts
