CONSTANTS
  Shapes = {1, 2, 3, 4, 6}
  Given = {0, 10, 12, 20, 30, 31, 40}
  MaxSteps = 6
  Hist = FALSE
INIT Init
NEXT Next
INVARIANTS InStep NeverAhead Together States
PROPERTIES AllDone NotAsked Idle Fits
VIEW View
