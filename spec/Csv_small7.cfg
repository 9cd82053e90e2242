SPECIFICATION Spec
CONSTANTS
  Alphabet = "small"
  MaxLen = 7
INVARIANTS Continued Strict Emit
PROPERTY OnlyAdds
CHECK_DEADLOCK FALSE
