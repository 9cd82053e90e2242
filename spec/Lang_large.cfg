SPECIFICATION Spec
CONSTANTS
  VarPool = "large"
  FnPool = "large"
  CellPool = "large"
INVARIANTS Confluent MeaningIsPreserved Terminates Complete Emit
CHECK_DEADLOCK FALSE
