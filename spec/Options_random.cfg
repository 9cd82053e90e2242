SPECIFICATION SimSpec
CONSTANTS
  MaxOptions = 9
  Choice = "all"
  Bad = FALSE
INVARIANTS Inherited Isolated Emit
CHECK_DEADLOCK FALSE
