CONSTANTS
  Kids = {1, 2, 3}
  V = {0, 1}
  Names = {"d1"}
  Hist = FALSE
INIT Init
NEXT McNext
INVARIANTS RoundTrip
PROPERTIES CleanAfter Restored TemplateKept
VIEW View
