SPECIFICATION Spec
CONSTANTS
    NRows = 3
    NCells = 2
    CellKinds = {"ok", "slow", "bad"}
    NMods = 3
    ModKinds = {"ok", "missing", "broken"}
    Defs = {"va", "vb", "fa", "fb"}
    MaxWrong = 2
    NSome = 6
    NWorkers = 2
INVARIANTS Deterministic DefinedInOrder OneWorker Emit
CHECK_DEADLOCK FALSE
