CONSTANTS
  Inners = {2, 4}
  Outers = {1, 2}
  Bps <- Bps_sim11
  Gates = {"creset", "preconf", "conf", "postconf", "prerun", "armed", "ready", "pause", "seek", "abort", "disable", "reset"}
  Fails = FALSE
  Ctl = {"pause", "seek", "abort", "disable"}
  Progress = FALSE
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
