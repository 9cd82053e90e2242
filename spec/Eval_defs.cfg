SPECIFICATION Spec
CONSTANTS
    NRows = 1
    NCells = 1
    CellKinds = {"ok"}
    NMods = 3
    ModKinds = {"ok"}
    Defs = {"va", "vb", "fa", "fb"}
    MaxWrong = 2
    NSome = 0
    NWorkers = 1
INVARIANTS Deterministic DefinedInOrder OneWorker Emit
CHECK_DEADLOCK FALSE
