SPECIFICATION Spec
CONSTANTS
  Mains = {"a", "plain", "code", "cell", "option", "fills", "call", "missing", "absent", "utf8", "var", "close"}
  Deps = {"1", "bad", "absent", "utf8"}
  Targets = {"csv", "xlsx", "ods", "txt", "none", "nodir", "gs"}
  Olds = {"none", "old", "junk", "dir"}
  MaxRuns = 1
  Faults = {"no"}
  Days = {1}
  Halves = {0}
  Minutes = {5}
  Seconds = {6}
  Nanos = {7}
  Random = FALSE
INVARIANTS FailuresChangeNothing OthersAreUntouched NothingIsLost BackupsAreKept NoTwoHaveTheSameName AtMostOne Emit
CHECK_DEADLOCK FALSE
