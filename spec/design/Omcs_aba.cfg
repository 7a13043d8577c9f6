SPECIFICATION Spec
CONSTANTS T = {a, b, c}
 Ops = 2
 OpRead = TRUE
 Offset = FALSE
 Defect = "none"
SYMMETRY Sym
INVARIANTS Mutex ReadsConsistent Versions
