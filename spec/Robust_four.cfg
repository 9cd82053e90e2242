SPECIFICATION Spec
CONSTANTS
  Surfaces = {"cell"}
  MaxLen = 4
  MaxEdits = 0
  MinEdits = 0
  Lengths = {}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
