CONSTANTS
  Parts = {1, 2, 3, 4}
  Msgs = {"", "a", "b", "c"}
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
