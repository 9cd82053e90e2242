SPECIFICATION Spec
CONSTANTS
  NRows = 4
  Fills = {5000, 0, 1, 3, 40, 997, 6000}
  Cells = "plain"
  Pads = {0}
  Offsets = {0}
  RowMax = 1000
INVARIANTS Complete FillsTheSheet InOrder NoDeadlock Emit
CHECK_DEADLOCK FALSE
