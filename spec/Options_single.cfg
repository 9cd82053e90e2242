SPECIFICATION Spec
CONSTANTS
  MaxOptions = 1
  Choice = "all"
  Bad = FALSE
INVARIANTS Inherited Isolated Emit
CHECK_DEADLOCK FALSE
