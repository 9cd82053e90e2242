SPECIFICATION Spec
CONSTANTS
  VarPool = "small"
  FnPool = "small"
  CellPool = "small"
INVARIANTS Confluent MeaningIsPreserved Terminates Complete Emit
CHECK_DEADLOCK FALSE
