SPECIFICATION Spec
CONSTANTS
  Alphabet = "quotes"
  MaxLen = 8
INVARIANTS Continued Strict Emit
PROPERTY OnlyAdds
CHECK_DEADLOCK FALSE
