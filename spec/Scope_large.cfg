SPECIFICATION Spec
CONSTANTS
  MainDefs = "mall"
  DepDefs = "all"
  Graphs = "few"
  Sample = 3
INVARIANTS Confluent Reachable MainWins Emit
CHECK_DEADLOCK FALSE
