SPECIFICATION Spec
CONSTANTS
  MainDefs = "both"
  DepDefs = "dboth"
  Graphs = "few"
  Sample = 2
INVARIANTS Confluent Reachable MainWins Emit
CHECK_DEADLOCK FALSE
