SPECIFICATION Spec
CONSTANTS
  MaxTokens = 1
  Wraps = {"paren", "id", "second", "var", "const", "import", "kv"}
  MaxWraps = 2
  MaxRows = 3
  MaxCells = 3
  MinRows = 2
  Random = TRUE
  Bad = TRUE
INVARIANTS ValuesAreKept Emit
PROPERTIES WrappingKeepsValues
CHECK_DEADLOCK FALSE
