CONSTANTS
  Inners = {1, 2, 3, 5, 7}
  Outers = {1, 2, 3, 4}
  Bps <- Bps_sim10
  Gates = {}
  Fails = FALSE
  Ctl = {"pause", "seek", "abort"}
  Progress = TRUE
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
