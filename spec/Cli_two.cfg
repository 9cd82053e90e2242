SPECIFICATION Spec
CONSTANTS
  MaxItems = 2
  Based = TRUE
  Mistakes = TRUE
INVARIANTS NothingGiven Accounted KVOnce Emit
CHECK_DEADLOCK FALSE
