SPECIFICATION Spec
CONSTANTS
  MaxItems = 8
  Based = TRUE
  Mistakes = FALSE
INVARIANTS NothingGiven Accounted KVOnce Emit
CHECK_DEADLOCK FALSE
