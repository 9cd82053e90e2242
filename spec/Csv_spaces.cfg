SPECIFICATION Spec
CONSTANTS
  Alphabet = "spaces"
  MaxLen = 5
INVARIANTS Continued Strict Emit
PROPERTY OnlyAdds
CHECK_DEADLOCK FALSE
