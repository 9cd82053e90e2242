SPECIFICATION Spec
CONSTANTS
  MaxOptions = 3
  Choice = "few"
  Bad = FALSE
INVARIANTS Inherited Isolated Emit
CHECK_DEADLOCK FALSE
