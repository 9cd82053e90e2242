SPECIFICATION Spec
CONSTANTS
  Kinds = {"text", "color", "size", "number", "date"}
  MaxLength = 3
INVARIANTS Bounded Emit
CHECK_DEADLOCK FALSE
