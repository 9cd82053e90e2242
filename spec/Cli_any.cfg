SPECIFICATION Spec
CONSTANTS
  MaxItems = 7
  Based = FALSE
  Mistakes = TRUE
INVARIANTS NothingGiven Accounted KVOnce Emit
CHECK_DEADLOCK FALSE
