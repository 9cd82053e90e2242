SPECIFICATION Spec
CONSTANTS
  NMods = 4
  Shape = "dag"
  NGraphs = 0
  Kinds = {"ok"}
  Eager = TRUE
INVARIANTS Once AllOfThem NotEarly NoDeadlock Emit

CHECK_DEADLOCK FALSE
