SPECIFICATION Spec
CONSTANTS T = {a, b, c}
 Ops = 2
 OpRead = TRUE
 Offset = TRUE
 Defect = "open"
SYMMETRY Sym
INVARIANTS Mutex ReadsConsistent Versions
