SPECIFICATION Spec
CONSTANTS
  K = 4
  Rd = {r}
  Wr = {a, b}
  Cap = 2
  Defect = "noright"
SYMMETRY Sym
INVARIANTS Found Reachable Ordered
