SPECIFICATION Spec
CONSTANTS
  MainDefs = "mall"
  DepDefs = "all"
  Graphs = "few"
  Sample = 4
INVARIANTS Confluent Reachable MainWins Emit
CHECK_DEADLOCK FALSE
