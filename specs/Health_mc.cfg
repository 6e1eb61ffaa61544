CONSTANTS
  Parts = {1, 2}
  Msgs = {"a", "b"}
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS ShowsWorst
VIEW View
