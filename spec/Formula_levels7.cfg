SPECIFICATION Spec
CONSTANTS
  Tokens = {"1", "^", "*", "+", "&", "="}
  MaxLen = 7
  MinEmit = 7
INVARIANTS WrittenIsStable GroupingIsExplicit FormulasAreBalanced Emit
CHECK_DEADLOCK FALSE
