CONSTANTS
  Vals = {0, 1, 2, 3}
  MaxCalls = 4
  MaxVer = 1000000
  Changes = {"x", "d", "r", "s", "alarm", "lab", "wr", "cho", "tab", "col", "blab", "btag", "health", "elem", "elems", "mdesc", "arr"}
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
CHECK_DEADLOCK FALSE
