CONSTANTS
  Vals = {0, 1}
  MaxCalls = 2
  MaxVer = 4
  Changes = {"x", "d"}
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS NoneLost Mirrors
PROPERTIES Forward
VIEW View
