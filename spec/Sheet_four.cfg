SPECIFICATION Spec
CONSTANTS
  NRows = 4
  Fills = {5000, 0, 2, 6000}
  Cells = "small"
  Pads = {25}
  Offsets = {0}
  RowMax = 1000
INVARIANTS Complete FillsTheSheet InOrder NoDeadlock Emit
CHECK_DEADLOCK FALSE
