CONSTANTS
  Word = 2
  Words = 2
  MaxCols = 3
  MaxRows = 1
  Sizes = {1, 2}
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS Laid Back
VIEW View
