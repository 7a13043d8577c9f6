SPECIFICATION Spec
CONSTANTS
  R = {a}
  Writes = 2
  Ops = 2
  TSO = TRUE
  Fence = FALSE
  Defect = "none"
SYMMETRY Sym
INVARIANTS NoOverlap NoCrash
