SPECIFICATION Spec
CONSTANTS
  Mains = {"a", "b", "plain", "code", "cell", "option", "fills", "call", "missing", "absent", "utf8", "var", "close"}
  Deps = {"1", "2", "bad", "absent", "utf8"}
  Targets = {"csv", "xlsx", "csv", "nodir"}
  Olds = {"none", "old", "junk", "dir"}
  MaxRuns = 5
  Faults = {"no"}
  Days = {1}
  Halves = {0}
  Minutes = {5}
  Seconds = {6}
  Nanos = {7, 8}
  Random = TRUE
INVARIANTS FailuresChangeNothing OthersAreUntouched NothingIsLost BackupsAreKept NoTwoHaveTheSameName AtMostOne Emit
CHECK_DEADLOCK FALSE
