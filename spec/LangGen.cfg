SPECIFICATION GSpec
CONSTANTS
  VarPool = "small"
  FnPool = "small"
  CellPool = "small"
INVARIANTS GConfluent GMeaning GComplete GEmit
CHECK_DEADLOCK FALSE
