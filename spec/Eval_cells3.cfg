SPECIFICATION Spec
CONSTANTS
    NRows = 4
    NCells = 2
    CellKinds = {"ok", "slow", "bad"}
    NMods = 1
    ModKinds = {"ok"}
    Defs = {}
    MaxWrong = 0
    NSome = 0
    NWorkers = 3
INVARIANTS Deterministic DefinedInOrder OneWorker Emit
CHECK_DEADLOCK FALSE
