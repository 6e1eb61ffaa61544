CONSTANTS
  MaxRows = 4096
  MaxRep = 4096
INIT Init
NEXT Next
