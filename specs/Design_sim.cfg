CONSTANTS
  Kids = {1, 2, 3}
  V = {0, 1, 2}
  Names = {"d1", "d2", "d3"}
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
