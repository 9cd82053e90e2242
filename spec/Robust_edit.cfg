SPECIFICATION Spec
CONSTANTS
  Surfaces = {"formula", "cell", "code", "options", "value", "validation", "keyvalue", "existing"}
  MaxLen = 0
  MaxEdits = 1
  MinEdits = 0
  Lengths = {}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
