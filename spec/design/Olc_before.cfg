SPECIFICATION Spec
CONSTANTS
  K = 3
  Rd = {r}
  Wr = {a, b}
  Cap = 2
  Defect = "before"
SYMMETRY Sym
INVARIANTS Found Reachable
