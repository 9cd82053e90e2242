SPECIFICATION Spec
CONSTANTS
  Alphabet = "quotes"
  MaxLen = 9
INVARIANTS Continued Strict Emit
PROPERTY OnlyAdds
CHECK_DEADLOCK FALSE
