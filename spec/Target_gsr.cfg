SPECIFICATION Spec
CONSTANTS
  Kind = "gs"
  H = 4
  W = 4
  CellKinds = {"", "t", "f", "n", "q", "h", "l"}
  OldKinds = {"", "t", "f", "n", "q", "h", "l", "p"}
  MaxWrites = 3
  Offsets <- SomeOffsets
  Random = TRUE
INVARIANTS SafePreserves SafeAddsOnly Overwrites Idempotent OutsideIsUntouched NothingIsMoved Emit
CHECK_DEADLOCK FALSE
