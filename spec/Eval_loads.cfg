SPECIFICATION Spec
CONSTANTS
    NRows = 1
    NCells = 1
    CellKinds = {"bad"}
    NMods = 3
    ModKinds = {"ok", "missing", "broken"}
    Defs = {"va"}
    MaxWrong = 1
    NSome = 0
    NWorkers = 1
INVARIANTS Deterministic DefinedInOrder OneWorker Emit
CHECK_DEADLOCK FALSE
