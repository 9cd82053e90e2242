SPECIFICATION TSpec
CONSTANTS
  NMods = 4
  Shape = "any"
  NGraphs = 1
  Kinds = {"ok"}
  Eager = FALSE
INVARIANTS Once AllOfThem Accept
CHECK_DEADLOCK FALSE
