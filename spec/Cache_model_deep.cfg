SPECIFICATION Spec
VIEW view
CONSTANTS
  MaxTime = 30
  Still = FALSE
  MaxDepth = 4
  Deep = TRUE
  Few = TRUE
  MaxHist = 0
  Start = "empty"
INVARIANTS Transparent NoStaleObjects NotAgain
PROPERTY UpToDate
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
