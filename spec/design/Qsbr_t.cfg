SPECIFICATION Spec
CONSTANTS
  R = {a, b, c}
  Writes = 3
  Ops = 2
  TSO = TRUE
  Fence = TRUE
  Defect = "none"
SYMMETRY Sym
INVARIANTS NoOverlap NoCrash
