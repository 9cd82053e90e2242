SPECIFICATION Spec
CONSTANTS
  Files = {"main"}
  Codes = {TRUE}
  MaxItems = 1
  MaxRows = 1
  MaxCells = 1
  MinItems = 0
  MinRows = 0
INVARIANTS PlaceIsTheEnd MistakeIsInside Emit
CHECK_DEADLOCK FALSE
