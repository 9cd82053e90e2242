SPECIFICATION Spec
CONSTANTS
  Surfaces = {"formula", "cell", "code", "options", "value", "validation", "keyvalue", "existing", "arguments"}
  MaxLen = 1
  MaxEdits = 0
  MinEdits = 0
  Lengths = {}
INVARIANTS TypeOK Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
