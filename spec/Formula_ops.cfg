SPECIFICATION Spec
CONSTANTS
  Tokens = {"1", "a", "+", "-", "*", "^", "%", "(", ")"}
  MaxLen = 5
  MinEmit = 1
INVARIANTS WrittenIsStable GroupingIsExplicit FormulasAreBalanced Emit
CHECK_DEADLOCK FALSE
