SPECIFICATION Spec
CONSTANTS
  K = 5
  Rd = {r}
  Wr = {a, b}
  Cap = 2
  Defect = "none"
SYMMETRY Sym
INVARIANTS Found Reachable Ordered
