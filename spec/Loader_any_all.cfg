SPECIFICATION Spec
CONSTANTS
  NMods = 3
  Shape = "any"
  NGraphs = 0
  Kinds = {"ok", "missing", "broken"}
  Eager = FALSE
INVARIANTS Once AllOfThem NotEarly NoDeadlock
PROPERTY Ends
CHECK_DEADLOCK FALSE
