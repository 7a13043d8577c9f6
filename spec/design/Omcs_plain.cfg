SPECIFICATION Spec
CONSTANTS T = {a, b, c}
 Ops = 1
 OpRead = FALSE
 Offset = TRUE
 Defect = "none"
SYMMETRY Sym
INVARIANTS Mutex ReadsConsistent Versions
