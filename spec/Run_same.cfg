SPECIFICATION Spec
CONSTANTS
  Mains = {"a", "b", "plain"}
  Deps = {"1"}
  Targets = {"csv"}
  Olds = {"none", "old"}
  MaxRuns = 7
  Faults = {"no"}
  Days = {1}
  Halves = {0}
  Minutes = {5}
  Seconds = {7}
  Nanos = {9, 10}
  Random = TRUE
INVARIANTS FailuresChangeNothing OthersAreUntouched NothingIsLost BackupsAreKept NoTwoHaveTheSameName AtMostOne Emit
CHECK_DEADLOCK FALSE
