CONSTANTS
  Slots = {1, 2, 3, 4}
  PairOps = {"x", "xk", "xa", "xl", "ta", "tb", "tl", "t", "rd", "ad", "dv"}
  GroupSub = TRUE
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS TypeOK SimEmit
