CONSTANTS
  Inners = {4, 6, 9}
  Outers = {1, 2, 3}
  Bps <- Bps_sim12
  Gates = {}
  Fails = FALSE
  Ctl = {"pause", "seek"}
  Progress = TRUE
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
