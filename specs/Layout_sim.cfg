CONSTANTS
  Vals = {"B1", "B2", "B3", "I2", "I3", "ZERO", "", "else"}
  Marks = {0, 1, 7}
  MaxOps = 1000
  Files = {"d1", "d2"}
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
