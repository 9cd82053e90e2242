SPECIFICATION Spec
CONSTANTS
  Files = {"main"}
  Codes = {TRUE}
  MaxItems = 3
  MaxRows = 0
  MaxCells = 0
  MinItems = 0
  MinRows = 0
INVARIANTS PlaceIsTheEnd MistakeIsInside Emit
CHECK_DEADLOCK FALSE
