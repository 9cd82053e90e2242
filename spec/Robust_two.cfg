SPECIFICATION Spec
CONSTANTS
  Surfaces = {"formula", "cell", "code", "options", "value", "validation", "keyvalue", "existing", "arguments"}
  MaxLen = 2
  MaxEdits = 0
  MinEdits = 0
  Lengths = {}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
