SPECIFICATION Spec
CONSTANTS
  Kind = "csv"
  H = 3
  W = 2
  CellKinds = {"", "t"}
  OldKinds = {"", "t"}
  MaxWrites = 1
  Offsets <- NoOffset
  Random = FALSE
INVARIANTS SafePreserves SafeAddsOnly Overwrites Idempotent OutsideIsUntouched NothingIsMoved Emit
CHECK_DEADLOCK FALSE
