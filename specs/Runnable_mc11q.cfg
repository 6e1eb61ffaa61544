CONSTANTS
  Inners = {2}
  Outers = {2}
  Bps <- Bps_mc11q
  Gates = {"conf", "armed", "pause", "seek", "abort", "disable"}
  Fails = TRUE
  Ctl = {"pause", "abort", "disable"}
  Progress = FALSE
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS RestIsQuiet ParkedWhenPaused NoStuck Position FinishedIsComplete ArmedIsIncomplete RangeOK
PROPERTIES LegalTrail ProgressOK
CONSTRAINT Bound2
VIEW View
