SPECIFICATION Spec
CONSTANTS
  T = {a, b, c}
  Gens = 3
  Kind = "mutex"
  Defect = "after"
SYMMETRY Sym
INVARIANTS Together Once NoStuck
