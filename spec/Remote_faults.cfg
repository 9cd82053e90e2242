SPECIFICATION Spec
CONSTANTS
  Heights = {1, 2}
  W = 2
  OldH = 2
  OldW = 2
  CellKinds = {"", "t", "f", "n"}
  OldKinds = {"", "t", "f", "n", "s", "a"}
  Offsets <- SomeOffsets
  TabSets <- AllTabs
  Names = {"", "main", "other", "first"}
  Creds = {"flag", "env", "adc", "flag+env", "flag+adc", "env+adc", "all", "service", "none", "missing", "junk", "type"}
  Faults = {"no", "token", "copy", "get", "update"}
  Sources = {"ok", "ok2", "bad"}
  MaxRuns = 2
  MaxEdits = 2
INVARIANTS OutsideIsUntouched FailuresChangeNothing SafePreserves SafePreservesEdits Overwrites NothingIsLost Emit
CHECK_DEADLOCK FALSE
