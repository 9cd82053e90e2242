SPECIFICATION Spec
CONSTANTS
  MainDefs = "b"
  DepDefs = "ab"
  Graphs = "all"
  Sample = 0
INVARIANTS Confluent Reachable MainWins Emit
CHECK_DEADLOCK FALSE
