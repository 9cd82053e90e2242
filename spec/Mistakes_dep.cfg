SPECIFICATION Spec
CONSTANTS
  Files = {"dep"}
  Codes = {TRUE}
  MaxItems = 0
  MaxRows = 1
  MaxCells = 2
  MinItems = 0
  MinRows = 0
INVARIANTS PlaceIsTheEnd MistakeIsInside Emit
CHECK_DEADLOCK FALSE
