SPECIFICATION Spec
CONSTANTS
  Surfaces = {"formula", "cell", "code", "options", "value", "validation", "keyvalue", "existing"}
  MaxLen = 0
  MaxEdits = 2
  MinEdits = 0
  Lengths = {20, 45, 70, 300}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
