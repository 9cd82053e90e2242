SPECIFICATION Spec
CONSTANTS
  Cells <- OneCells
  Sizes <- OneSizes
  Ranges <- OneRanges
  MaxWrites = 1
  Random = FALSE
INVARIANTS Untouched Wins Emit
CHECK_DEADLOCK FALSE
