SPECIFICATION Spec
VIEW view
CONSTANTS
  MaxTime = 4
  Still = TRUE
  MaxDepth = 6
  Deep = FALSE
  Few = TRUE
  MaxHist = 0
  Start = "empty"
INVARIANTS Transparent NoStaleObjects
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
