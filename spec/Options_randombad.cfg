SPECIFICATION SimSpec
CONSTANTS
  MaxOptions = 9
  Choice = "all"
  Bad = TRUE
INVARIANTS Inherited Isolated Emit
CHECK_DEADLOCK FALSE
