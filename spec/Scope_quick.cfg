SPECIFICATION Spec
CONSTANTS
  MainDefs = "b"
  DepDefs = "abf"
  Graphs = "few"
  Sample = 2
INVARIANTS Confluent Reachable MainWins Emit
CHECK_DEADLOCK FALSE
