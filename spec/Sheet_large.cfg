SPECIFICATION Spec
CONSTANTS
  NRows = 3
  Fills = {5000, 0, 1, 2, 6000}
  Cells = "large"
  Pads = {0}
  Offsets = {0}
  RowMax = 1000
INVARIANTS Complete FillsTheSheet InOrder NoDeadlock Emit
CHECK_DEADLOCK FALSE
