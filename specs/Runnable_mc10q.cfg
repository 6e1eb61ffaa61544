CONSTANTS
  Inners = {3}
  Outers = {1, 2}
  Bps <- Bps_mc10q
  Gates = {}
  Fails = FALSE
  Ctl = {"pause", "seek", "abort"}
  Progress = TRUE
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS RestIsQuiet ParkedWhenPaused NoStuck Position FinishedIsComplete ArmedIsIncomplete RangeOK
PROPERTIES LegalTrail ProgressOK
CONSTRAINT Bound2
VIEW View
