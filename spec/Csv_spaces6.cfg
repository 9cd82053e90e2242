SPECIFICATION Spec
CONSTANTS
  Alphabet = "spaces"
  MaxLen = 6
INVARIANTS Continued Strict Emit
PROPERTY OnlyAdds
CHECK_DEADLOCK FALSE
