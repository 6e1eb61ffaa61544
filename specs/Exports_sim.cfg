CONSTANTS
  V = {0, 1, 2}
  N1 = {"ex", "ey", "ez"}
  N2 = {"px", "py"}
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
