SPECIFICATION Spec
CONSTANTS
  K = 4
  Rd = {r}
  Wr = {a, b}
  Cap = 1
  Defect = "onestep"
SYMMETRY Sym
INVARIANTS Found Reachable Ordered
