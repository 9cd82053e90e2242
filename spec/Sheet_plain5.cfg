SPECIFICATION Spec
CONSTANTS
  NRows = 5
  Fills = {5000, 0, 2, 6000}
  Cells = "plain"
  Pads = {1}
  Offsets = {0}
  RowMax = 1000
INVARIANTS Complete FillsTheSheet InOrder NoDeadlock Emit
CHECK_DEADLOCK FALSE
