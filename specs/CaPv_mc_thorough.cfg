CONSTANTS
  Kinds = {"long"}
  Sevs = {0, 2}
  MaxOps = 4
  Hist = FALSE
INIT Init
NEXT Next
VIEW view
CONSTRAINT Bound
INVARIANTS Mirror MirrorTab Ready
PROPERTIES Silent
