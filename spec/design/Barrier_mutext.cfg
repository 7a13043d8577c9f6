SPECIFICATION Spec
CONSTANTS
  T = {a, b, c, d}
  Gens = 3
  Kind = "mutex"
  Defect = "none"
SYMMETRY Sym
INVARIANTS Together Once NoStuck
