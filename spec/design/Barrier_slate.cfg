SPECIFICATION Spec
CONSTANTS
  T = {a, b, c}
  Gens = 3
  Kind = "spin"
  Defect = "late"
SYMMETRY Sym
INVARIANTS Together Once NoStuck
