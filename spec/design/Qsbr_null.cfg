SPECIFICATION Spec
CONSTANTS
  R = {a, b}
  Writes = 2
  Ops = 2
  TSO = FALSE
  Fence = TRUE
  Defect = "null"
SYMMETRY Sym
INVARIANTS NoOverlap NoCrash
