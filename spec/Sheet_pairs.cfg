SPECIFICATION Spec
CONSTANTS
  NRows = 2
  Fills = {5000, 0, 1, 2, 9, 999, 1000, 1001, 6000}
  Cells = "large"
  Pads = {0, 25}
  Offsets = {0}
  RowMax = 1000
INVARIANTS Complete FillsTheSheet InOrder NoDeadlock Emit
CHECK_DEADLOCK FALSE
