SPECIFICATION Spec
CONSTANTS
  MaxItems = 1
  Based = FALSE
  Mistakes = TRUE
INVARIANTS NothingGiven Accounted KVOnce Emit
CHECK_DEADLOCK FALSE
