SPECIFICATION Spec
CONSTANTS
  Tokens = {"0", "007", "00", "65536", "2147483648", "4294967296", "12345678901", "9007199254740993", "9223372036854775807", "1.50", "0.1", "00.5", "100.0", "3.", "0.0001", "16777217.5", "123456789.125", "''", "'a''b'", "'# +1) é'", "true", "false", "TRUE", "A1", "A:$C", "Sheet1!A1", "STDEV.S", "_x", "é", "true1", "falsey", "usex", "fnx", "-", "+", "%", "&", "(", ")"}
  MaxLen = 2
  MinEmit = 1
INVARIANTS WrittenIsStable GroupingIsExplicit FormulasAreBalanced Emit
CHECK_DEADLOCK FALSE
