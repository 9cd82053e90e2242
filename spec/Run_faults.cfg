SPECIFICATION Spec
CONSTANTS
  Mains = {"a", "b", "plain", "call"}
  Deps = {"1", "2", "2", "absent"}
  Targets = {"csv", "xlsx", "csv"}
  Olds = {"none", "old", "junk"}
  MaxRuns = 4
  Faults = {"no", "no", "out", "backup", "object"}
  Days = {1}
  Halves = {0}
  Minutes = {5}
  Seconds = {6}
  Nanos = {7, 8}
  Random = TRUE
INVARIANTS FailuresChangeNothing OthersAreUntouched NothingIsLost BackupsAreKept NoTwoHaveTheSameName AtMostOne Emit
CHECK_DEADLOCK FALSE
