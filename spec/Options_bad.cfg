SPECIFICATION Spec
CONSTANTS
  MaxOptions = 0
  Choice = "few"
  Bad = TRUE
INVARIANTS Inherited Isolated Emit
CHECK_DEADLOCK FALSE
