SPECIFICATION Spec
CONSTANTS
  Tokens = {"f", "(", ")", ",", "2", "*"}
  MaxLen = 6
  MinEmit = 1
INVARIANTS WrittenIsStable GroupingIsExplicit FormulasAreBalanced Emit
CHECK_DEADLOCK FALSE
