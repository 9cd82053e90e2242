SPECIFICATION Spec

CONSTANTS
  MaxTime = 30
  Still = FALSE
  MaxDepth = 0
  Deep = TRUE
  Few = TRUE
  MaxHist = 4
  Start = "built"
INVARIANTS Transparent NoStaleObjects Emit

CHECK_DEADLOCK FALSE
