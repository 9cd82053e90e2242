SPECIFICATION Spec
CONSTANTS
  Tokens = {"f", "(", ")", ",", "2", "*"}
  MaxLen = 7
  MinEmit = 1
INVARIANTS WrittenIsStable GroupingIsExplicit FormulasAreBalanced Emit
CHECK_DEADLOCK FALSE
