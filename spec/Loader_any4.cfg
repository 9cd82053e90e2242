SPECIFICATION Spec
CONSTANTS
  NMods = 4
  Shape = "any"
  NGraphs = 500
  Kinds = {"ok", "broken"}
  Eager = TRUE
INVARIANTS Once AllOfThem NotEarly NoDeadlock Emit

CHECK_DEADLOCK FALSE
