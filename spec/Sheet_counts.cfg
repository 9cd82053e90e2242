SPECIFICATION Spec
CONSTANTS
  NRows = 3
  Fills = {5000, 0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 499, 998, 999, 1000, 1001, 1500, 6000}
  Cells = "row"
  Pads = {0}
  Offsets = {0}
  RowMax = 1000
INVARIANTS Complete FillsTheSheet InOrder NoDeadlock Emit
CHECK_DEADLOCK FALSE
