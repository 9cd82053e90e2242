SPECIFICATION Spec
CONSTANTS
    NRows = 2
    NCells = 2
    CellKinds = {"ok", "bad"}
    NMods = 2
    ModKinds = {"ok", "missing"}
    Defs = {"va"}
    MaxWrong = 2
    NSome = 0
    NWorkers = 2
INVARIANTS Deterministic DefinedInOrder OneWorker
PROPERTY Ends
CHECK_DEADLOCK FALSE
