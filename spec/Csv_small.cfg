SPECIFICATION Spec
CONSTANTS
  Alphabet = "small"
  MaxLen = 6
INVARIANTS Continued Strict Emit
PROPERTY OnlyAdds
CHECK_DEADLOCK FALSE
