CONSTANTS
  Vals = {0, 1}
  MaxCalls = 2
  MaxVer = 5
  Changes = {"x", "d"}
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS NoneLost Mirrors
PROPERTIES Forward
VIEW View
