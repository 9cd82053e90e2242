SPECIFICATION Spec
CONSTANTS
  Surfaces = {"arguments"}
  MaxLen = 0
  MaxEdits = 3
  MinEdits = 3
  Lengths = {}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
