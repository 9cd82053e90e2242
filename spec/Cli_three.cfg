SPECIFICATION Spec
CONSTANTS
  MaxItems = 3
  Based = TRUE
  Mistakes = FALSE
INVARIANTS NothingGiven Accounted KVOnce Emit
CHECK_DEADLOCK FALSE
