SPECIFICATION Spec
CONSTANTS
  MaxTokens = 2
  Wraps = {"paren", "id", "second", "var", "const", "import", "kv"}
  MaxWraps = 3
  MaxRows = 4
  MaxCells = 4
  MinRows = 2
  Random = TRUE
  Bad = FALSE
INVARIANTS ValuesAreKept Emit
PROPERTIES WrappingKeepsValues
CHECK_DEADLOCK FALSE
