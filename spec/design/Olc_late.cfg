SPECIFICATION Spec
CONSTANTS
  K = 3
  Rd = {r}
  Wr = {a, b}
  Cap = 2
  Defect = "late"
SYMMETRY Sym
INVARIANTS Found Reachable
