SPECIFICATION Spec
CONSTANTS
  Heights = {1, 2, 3}
  W = 3
  OldH = 4
  OldW = 4
  CellKinds = {"", "t", "f", "n"}
  OldKinds = {"", "t", "f", "n", "s", "a"}
  Offsets <- SomeOffsets
  TabSets <- AllTabs
  Names = {"", "main", "other", "first"}
  Creds = {"flag"}
  Faults = {"no"}
  Sources = {"ok"}
  MaxRuns = 3
  MaxEdits = 2
INVARIANTS OutsideIsUntouched FailuresChangeNothing SafePreserves SafePreservesEdits Overwrites NothingIsLost Emit
CHECK_DEADLOCK FALSE
