SPECIFICATION Spec
CONSTANTS
  MaxOptions = 2
  Choice = "two"
  Bad = FALSE
INVARIANTS Inherited Isolated Emit
CHECK_DEADLOCK FALSE
