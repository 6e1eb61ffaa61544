CONSTANTS
  Tol = 1
INIT Init
NEXT Next
