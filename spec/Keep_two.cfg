SPECIFICATION Spec
CONSTANTS
  Cells <- OneCells
  Sizes <- OneSizes
  Ranges <- OneRanges
  MaxWrites = 2
  Random = FALSE
INVARIANTS Untouched Wins Emit
CHECK_DEADLOCK FALSE
