SPECIFICATION Spec
CONSTANTS
  NMods = 4
  Shape = "dag"
  NGraphs = 30
  Kinds = {"ok", "missing", "broken"}
  Eager = TRUE
INVARIANTS Once AllOfThem NotEarly NoDeadlock Emit

CHECK_DEADLOCK FALSE
