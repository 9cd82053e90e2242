SPECIFICATION Spec
CONSTANTS
  Alphabet = "small"
  MaxLen = 60
INVARIANTS Continued Strict Emit
PROPERTY OnlyAdds
CHECK_DEADLOCK FALSE
