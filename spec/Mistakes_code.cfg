SPECIFICATION Spec
CONSTANTS
  Files = {"main", "dep"}
  Codes = {TRUE}
  MaxItems = 2
  MaxRows = 0
  MaxCells = 0
  MinItems = 0
  MinRows = 0
INVARIANTS PlaceIsTheEnd MistakeIsInside Emit
CHECK_DEADLOCK FALSE
