CONSTANTS
  Shapes = {1, 3, 6}
  Given = {0, 12, 20, 30}
  MaxSteps = 6
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS InStep NeverAhead Together States
PROPERTIES AllDone NotAsked Idle Fits
VIEW View
