SPECIFICATION Spec

CONSTANTS
  MaxTime = 30
  Still = TRUE
  MaxDepth = 0
  Deep = FALSE
  Few = FALSE
  MaxHist = 12
  Start = "empty"
INVARIANTS Transparent NoStaleObjects Emit

CHECK_DEADLOCK FALSE
