SPECIFICATION Spec
CONSTANTS
  Kind = "gs"
  H = 2
  W = 2
  CellKinds = {"", "t", "f"}
  OldKinds = {"", "t", "f"}
  MaxWrites = 1
  Offsets <- SomeOffsets
  Random = FALSE
INVARIANTS SafePreserves SafeAddsOnly Overwrites Idempotent OutsideIsUntouched NothingIsMoved Emit
CHECK_DEADLOCK FALSE
