SPECIFICATION Spec
CONSTANTS
  R = {a, b}
  Writes = 2
  Ops = 2
  TSO = TRUE
  Fence = TRUE
  Defect = "none"
SYMMETRY Sym
INVARIANTS NoOverlap NoCrash
