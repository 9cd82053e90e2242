SPECIFICATION Spec
CONSTANTS
  MaxTokens = 2
  Wraps = {}
  MaxWraps = 0
  MaxRows = 1
  MaxCells = 1
  MinRows = 1
  Random = FALSE
  Bad = FALSE
INVARIANTS ValuesAreKept Emit
PROPERTIES WrappingKeepsValues
CHECK_DEADLOCK FALSE
