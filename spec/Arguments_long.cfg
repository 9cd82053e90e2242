SPECIFICATION Spec
CONSTANTS
  Kinds = {"text", "color"}
  MaxLength = 8
INVARIANTS Bounded Emit
CHECK_DEADLOCK FALSE
