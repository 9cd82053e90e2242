SPECIFICATION Spec
CONSTANTS
  Kind = "xlsx"
  H = 2
  W = 2
  CellKinds = {"", "f"}
  OldKinds = {"", "t", "s"}
  MaxWrites = 1
  Offsets <- NoOffset
  Random = FALSE
INVARIANTS SafePreserves SafeAddsOnly Overwrites Idempotent OutsideIsUntouched NothingIsMoved Emit
CHECK_DEADLOCK FALSE
