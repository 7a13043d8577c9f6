SPECIFICATION Spec
CONSTANTS
  T = {a, b, c}
  Gens = 3
  Kind = "mutex"
  Defect = "single"
SYMMETRY Sym
INVARIANTS Together Once NoStuck
