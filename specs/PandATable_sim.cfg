CONSTANTS
  Word = 32
  Words = 4
  MaxCols = 7
  MaxRows = 4
  Sizes = {1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32}
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
CHECK_DEADLOCK FALSE
