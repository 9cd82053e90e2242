SPECIFICATION Spec
CONSTANTS
  MaxOptions = 1
  Choice = "few"
  Bad = TRUE
INVARIANTS Inherited Isolated Emit
CHECK_DEADLOCK FALSE
