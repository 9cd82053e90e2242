SPECIFICATION Spec
CONSTANTS
  Cells <- ManyCells
  Sizes <- ManySizes
  Ranges <- ManyRanges
  MaxWrites = 2
  Random = TRUE
INVARIANTS Untouched Wins Emit
CHECK_DEADLOCK FALSE
