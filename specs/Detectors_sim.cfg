CONSTANTS
  Shapes = {1, 2, 3, 4, 5, 6}
  Given = {0, 10, 11, 12, 13, 16, 20, 22, 30, 31, 32, 33, 40, 41, 42}
  MaxSteps = 6
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
