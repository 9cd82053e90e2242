SPECIFICATION Spec

CONSTANTS
  MaxTime = 3
  Still = TRUE
  MaxDepth = 0
  Deep = FALSE
  Few = FALSE
  MaxHist = 3
  Start = "built"
INVARIANTS Transparent NoStaleObjects Emit

CHECK_DEADLOCK FALSE
