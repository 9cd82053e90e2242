SPECIFICATION Spec
VIEW view
CONSTANTS
  MaxTime = 30
  Still = FALSE
  MaxDepth = 6
  Deep = TRUE
  Few = TRUE
  MaxHist = 0
  Start = "empty"
INVARIANTS Transparent NoStaleObjects
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
