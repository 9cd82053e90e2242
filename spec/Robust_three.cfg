SPECIFICATION Spec
CONSTANTS
  Surfaces = {"formula", "cell", "code", "options", "validation", "keyvalue"}
  MaxLen = 3
  MaxEdits = 0
  MinEdits = 0
  Lengths = {}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
