SPECIFICATION Spec
CONSTANTS
  Surfaces = {"formula", "cell", "code", "options", "value", "validation", "keyvalue", "existing"}
  MaxLen = 0
  MaxEdits = 4
  MinEdits = 4
  Lengths = {}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
