SPECIFICATION GSpec
CONSTANTS
  Tokens = {}
  MaxLen = 100
  MinEmit = 1
  GenLen = 26
INVARIANTS WrittenIsStable GroupingIsExplicit FormulasAreBalanced GEmit
CHECK_DEADLOCK FALSE
