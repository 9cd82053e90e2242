SPECIFICATION Spec
CONSTANTS
  NRows = 2
  Fills = {5000, 1, 3, 6000}
  Cells = "large"
  Pads = {0, 24}
  Offsets = {0, 1, 3, 2000, 27012}
  RowMax = 1000
INVARIANTS Complete FillsTheSheet InOrder NoDeadlock Emit
CHECK_DEADLOCK FALSE
