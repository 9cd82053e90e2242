SPECIFICATION Spec
CONSTANTS
  Mains = {"a", "b", "plain"}
  Deps = {"1", "2"}
  Targets = {"csv", "xlsx"}
  Olds = {"none", "old"}
  MaxRuns = 7
  Faults = {"no"}
  Days = {1, 2}
  Halves = {0, 1}
  Minutes = {5, 6}
  Seconds = {7, 8}
  Nanos = {9, 10}
  Random = TRUE
INVARIANTS FailuresChangeNothing OthersAreUntouched NothingIsLost BackupsAreKept NoTwoHaveTheSameName AtMostOne Emit
CHECK_DEADLOCK FALSE
