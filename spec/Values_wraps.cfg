SPECIFICATION Spec
CONSTANTS
  MaxTokens = 1
  Wraps = {"paren", "id", "second", "var", "const", "import", "kv"}
  MaxWraps = 2
  MaxRows = 1
  MaxCells = 1
  MinRows = 1
  Random = FALSE
  Bad = TRUE
INVARIANTS ValuesAreKept Emit
PROPERTIES WrappingKeepsValues
CHECK_DEADLOCK FALSE
