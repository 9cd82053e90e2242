SPECIFICATION Spec
CONSTANTS
  Kind = "xlsx"
  H = 4
  W = 4
  CellKinds = {"", "t", "f", "n", "q", "h", "l"}
  OldKinds = {"", "t", "f", "n", "s", "q", "h", "l", "p"}
  MaxWrites = 4
  Offsets <- NoOffset
  Random = TRUE
INVARIANTS SafePreserves SafeAddsOnly Overwrites Idempotent OutsideIsUntouched NothingIsMoved Emit
CHECK_DEADLOCK FALSE
