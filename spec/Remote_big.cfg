SPECIFICATION Spec
CONSTANTS
  Heights = {999, 1000, 1001, 2000, 2001, 2500}
  W = 1
  OldH = 2002
  OldW = 1
  CellKinds = {"", "t", "f", "n"}
  OldKinds = {"", "t", "f", "n", "s", "a"}
  Offsets <- SomeOffsets
  TabSets <- AllTabs
  Names = {"", "main", "other", "first"}
  Creds = {"flag"}
  Faults = {"no"}
  Sources = {"ok"}
  MaxRuns = 1
  MaxEdits = 0
INVARIANTS OutsideIsUntouched FailuresChangeNothing SafePreserves SafePreservesEdits Overwrites NothingIsLost Emit
CHECK_DEADLOCK FALSE
