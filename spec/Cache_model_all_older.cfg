SPECIFICATION Spec
VIEW view
CONSTANTS
  MaxTime = 30
  Still = FALSE
  MaxDepth = 5
  Deep = FALSE
  Few = FALSE
  MaxHist = 0
  Start = "built"
INVARIANTS Transparent NoStaleObjects
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
