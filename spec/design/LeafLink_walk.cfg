SPECIFICATION Spec
CONSTANTS
  K = 3
  T = {a, b}
  Cap = 1
  Ops = 2
  NL = 5
  Defect = "walk"
SYMMETRY Sym
INVARIANTS NoDead Sorted Here Listed
