SPECIFICATION Spec
CONSTANTS T = {a, b, c}
 Ops = 1
 OpRead = TRUE
 Offset = TRUE
 Defect = "none"
SYMMETRY Sym
INVARIANTS Mutex ReadsConsistent Versions
