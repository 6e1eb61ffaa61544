CONSTANTS
  Slots = {1}
  PairOps = {"x", "xa", "ta", "t", "rd", "ad", "dv"}
  GroupSub = TRUE
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK ConsistentResp AbsentFieldClean
PROPERTIES NoMissedChange
VIEW View
