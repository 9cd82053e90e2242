SPECIFICATION Spec
CONSTANTS
  Files = {"main", "dep"}
  Codes = {TRUE, FALSE}
  MaxItems = 8
  MaxRows = 12
  MaxCells = 4
  MinItems = 2
  MinRows = 4
INVARIANTS PlaceIsTheEnd MistakeIsInside Emit
CHECK_DEADLOCK FALSE
