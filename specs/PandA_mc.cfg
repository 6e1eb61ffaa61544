CONSTANTS
  MaxCalls = 2
  Units = 2
  Vals = {"1", "2"}
  Bound = 4
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS NoneLost
VIEW View
