SPECIFICATION Spec
CONSTANTS
    NRows = 8
    NCells = 3
    CellKinds = {"ok", "slow", "bad"}
    NMods = 2
    ModKinds = {"ok"}
    Defs = {"va", "fa"}
    MaxWrong = 1
    NSome = 3
    NWorkers = 3
INVARIANTS Deterministic DefinedInOrder OneWorker Emit
CHECK_DEADLOCK FALSE
