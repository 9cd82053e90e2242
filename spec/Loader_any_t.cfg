SPECIFICATION Spec
CONSTANTS
  NMods = 3
  Shape = "any"
  NGraphs = 600
  Kinds = {"ok", "missing", "broken"}
  Eager = TRUE
INVARIANTS Once AllOfThem NotEarly NoDeadlock Emit

CHECK_DEADLOCK FALSE
