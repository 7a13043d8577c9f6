SPECIFICATION Spec
CONSTANTS
  T = {a, b, c}
  Gens = 3
  Kind = "spin"
  Defect = "after"
SYMMETRY Sym
INVARIANTS Together Once NoStuck
