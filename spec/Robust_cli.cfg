SPECIFICATION Spec
CONSTANTS
  Surfaces = {"arguments"}
  MaxLen = 0
  MaxEdits = 1
  MinEdits = 0
  Lengths = {}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
