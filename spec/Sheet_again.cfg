SPECIFICATION Spec
CONSTANTS
  NRows = 2
  Fills = {5000, 3, 6000}
  Cells = "large"
  Pads = {0, 25}
  Offsets = {0}
  RowMax = 1000
INVARIANTS Complete FillsTheSheet InOrder NoDeadlock Emit
CHECK_DEADLOCK FALSE
