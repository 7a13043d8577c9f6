SPECIFICATION Spec
CONSTANTS
  K = 4
  Rd = {r}
  Wr = {a, b}
  Cap = 2
  Defect = "retry"
SYMMETRY Sym
INVARIANTS Found Reachable Ordered
