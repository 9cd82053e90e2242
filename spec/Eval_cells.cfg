SPECIFICATION Spec
CONSTANTS
    NRows = 3
    NCells = 2
    CellKinds = {"ok", "slow", "bad"}
    NMods = 1
    ModKinds = {"ok"}
    Defs = {}
    MaxWrong = 0
    NSome = 0
    NWorkers = 2
INVARIANTS Deterministic DefinedInOrder OneWorker Emit
CHECK_DEADLOCK FALSE
