-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Compiling a program is done by many threads: modules are loaded by one  *)
(* thread each, the definitions of those the main module uses are then     *)
(* evaluated one module after the other, and finally the rows are          *)
(* evaluated by as many workers as there are processors, each of which     *)
(* takes whatever row is left.  Some cells take longer than others.        *)
(*                                                                         *)
(* Several things can be wrong at once: modules which cannot be loaded,    *)
(* definitions and cells which cannot be evaluated.  Whatever the threads  *)
(* do, it's always the same that is reported: all of the modules which     *)
(* cannot be loaded, or else the first definition of the first module, or  *)
(* else the first cell.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization

CONSTANTS
    NRows, NCells,  \* the main module has NRows rows of NCells cells
    CellKinds,      \* a subset of {"ok", "slow", "bad"}
    NMods,          \* the modules are 1..NMods, 0 is the main module
    ModKinds,       \* a subset of {"ok", "missing", "broken"}
    Defs,           \* the definitions that can be wrong: a subset of {"va", "vb", "fa", "fb"}
    MaxWrong,       \* in this many modules
    NSome,          \* how many of the cells and import graphs to choose at random, 0 for all of them
    NWorkers

VARIABLES
    cells,          \* row -> column -> kind
    uses, kind, wrong,
    phase,          \* "load", "define", "cells", "done"
    reserved, loaded, failed,
    defined,        \* the modules whose definitions were evaluated
    taken,          \* worker -> the row it is evaluating, or 0
    at,             \* worker -> the cell of it that is next
    left,           \* the rows nobody has taken yet
    result,         \* row -> the cell of it which is wrong, 0 for none, -1 if it wasn't evaluated yet
    outcome

input == <<cells, uses, kind, wrong>>
vars  == <<input, phase, reserved, loaded, failed, defined, taken, at, left, result, outcome>>

Mods    == 1..NMods
All     == 0..NMods
Rows    == 1..NRows
Workers == 1..NWorkers

Some(S) == IF NSome = 0 THEN S ELSE RandomSubset(NSome, S)
Graphs  == {g \in [All -> SUBSET Mods] : \A m \in All : \A n \in g[m] : n > m}
KindsOf == {k \in [Mods -> ModKinds] : TRUE}
WrongOf == {w \in [Mods -> SUBSET Defs] : Cardinality({m \in Mods : w[m] # {}}) <= MaxWrong}

Init == /\ cells \in Some([Rows -> [1..NCells -> CellKinds]])
        /\ uses \in Some(Graphs)
        /\ kind \in Some(KindsOf)
        /\ wrong \in Some(WrongOf)
        /\ phase = "load"
        /\ reserved = uses[0] /\ loaded = {} /\ failed = {} /\ defined = {}
        /\ taken = [w \in Workers |-> 0] /\ at = [w \in Workers |-> 1]
        /\ left = Rows
        /\ result = [r \in Rows |-> -1]
        /\ outcome = <<>>

-----------------------------------------------------------------------------
(* loading (Loader.tla has it in detail) *)

LoadOne(m) ==
    /\ phase = "load" /\ m \in reserved \ (loaded \cup failed)
    /\ IF kind[m] = "ok"
       THEN /\ loaded' = loaded \cup {m}
            /\ reserved' = reserved \cup uses[m]
            /\ UNCHANGED failed
       ELSE /\ failed' = failed \cup {m}
            /\ UNCHANGED <<loaded, reserved>>
    /\ UNCHANGED <<input, phase, defined, taken, at, left, result, outcome>>

EndLoad ==
    /\ phase = "load" /\ reserved = loaded \cup failed
    /\ IF failed = {}
       THEN phase' = "define" /\ UNCHANGED outcome
       ELSE phase' = "done" /\ outcome' = <<"load", failed>>
    /\ UNCHANGED <<input, reserved, loaded, failed, defined, taken, at, left, result>>

-----------------------------------------------------------------------------
(* definitions: every module after those it uses, the last it uses first *)

RECURSIVE Visit(_, _), VisitAll(_, _)
Visit(m, seq) ==
    IF \E i \in DOMAIN seq : seq[i] = m THEN seq
    ELSE LET s == VisitAll(uses[m], seq) IN Append(s, m)
VisitAll(ms, seq) ==
    IF ms = {} THEN seq
    ELSE LET m == CHOOSE x \in ms : \A y \in ms : x >= y
         IN VisitAll(ms \ {m}, Visit(m, seq))

Order == VisitAll(uses[0], <<>>)

\* variables before functions, by name
ByName == <<"va", "vb", "fa", "fb">>
FirstOf(ds) == ByName[CHOOSE i \in 1..4 : ByName[i] \in ds /\ \A j \in 1..(i - 1) : ByName[j] \notin ds]

Define ==
    /\ phase = "define" /\ Cardinality(defined) < Len(Order)
    /\ LET m == Order[Cardinality(defined) + 1] IN
       IF wrong[m] = {}
       THEN defined' = defined \cup {m} /\ UNCHANGED <<phase, outcome>>
       ELSE phase' = "done" /\ outcome' = <<"definition", m, FirstOf(wrong[m])>> /\ UNCHANGED defined
    /\ UNCHANGED <<input, reserved, loaded, failed, taken, at, left, result>>

EndDefine ==
    /\ phase = "define" /\ Cardinality(defined) = Len(Order)
    /\ phase' = "cells"
    /\ UNCHANGED <<input, reserved, loaded, failed, defined, taken, at, left, result, outcome>>

-----------------------------------------------------------------------------
(* cells *)

Take(w, r) ==
    /\ phase = "cells" /\ taken[w] = 0 /\ r \in left
    /\ taken' = [taken EXCEPT ![w] = r]
    /\ at' = [at EXCEPT ![w] = 1]
    /\ left' = left \ {r}
    /\ UNCHANGED <<input, phase, reserved, loaded, failed, defined, result, outcome>>

\* the next cell of the row, which is over when one is wrong
Cell(w) ==
    /\ phase = "cells" /\ taken[w] # 0
    /\ LET r == taken[w] IN
       IF at[w] > NCells
       THEN /\ result' = [result EXCEPT ![r] = 0] /\ taken' = [taken EXCEPT ![w] = 0]
            /\ at' = [at EXCEPT ![w] = 1]
       ELSE IF cells[r][at[w]] = "bad"
       THEN /\ result' = [result EXCEPT ![r] = at[w]] /\ taken' = [taken EXCEPT ![w] = 0]
            /\ at' = [at EXCEPT ![w] = 1]
       ELSE /\ at' = [at EXCEPT ![w] = @ + 1]
            /\ UNCHANGED <<result, taken>>
    /\ UNCHANGED <<input, phase, reserved, loaded, failed, defined, left, outcome>>

\* the first one, not the one that was found first
EndCells ==
    /\ phase = "cells" /\ \A r \in Rows : result[r] # -1
    /\ phase' = "done"
    /\ LET bad == {r \in Rows : result[r] > 0} IN
       IF bad = {} THEN outcome' = <<"ok">>
       ELSE LET r == CHOOSE x \in bad : \A y \in bad : x <= y IN outcome' = <<"cell", r, result[r]>>
    /\ UNCHANGED <<input, reserved, loaded, failed, defined, taken, at, left, result>>

Next == \/ \E m \in Mods : LoadOne(m)
        \/ EndLoad \/ Define \/ EndDefine \/ EndCells
        \/ \E w \in Workers : Cell(w) \/ \E r \in Rows : Take(w, r)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* what is always the outcome *)

RECURSIVE Reach(_, _)
Reach(s, todo) ==
    IF todo = {} THEN s
    ELSE LET new == UNION {uses[m] : m \in {x \in todo : kind[x] = "ok"}} \ (s \cup todo)
         IN Reach(s \cup todo, new)

Used == Reach({}, uses[0])

BadCells == {rc \in Rows \X (1..NCells) : cells[rc[1]][rc[2]] = "bad"}
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

\* a module with something wrong that uses no other such module (whose definitions are then fine)
Blamable == {m \in Used : wrong[m] # {} /\ \A n \in Reach({}, uses[m]) : wrong[n] = {}}

Deterministic ==
    phase = "done" =>
        LET missing == {m \in Used : kind[m] # "ok"} IN
        IF missing # {} THEN outcome = <<"load", missing>>
        ELSE IF \E m \in Used : wrong[m] # {}
        THEN /\ outcome[1] = "definition"
             /\ outcome[2] \in Blamable
             /\ outcome[2] = (LET o == Order IN o[CHOOSE i \in DOMAIN o : wrong[o[i]] # {} /\ \A j \in 1..(i - 1) : wrong[o[j]] = {}])
             /\ outcome[3] = FirstOf(wrong[outcome[2]])
        ELSE IF BadCells # {}
        THEN LET f == CHOOSE a \in BadCells : \A b \in BadCells : Before(a, b)
             IN outcome = <<"cell", f[1], f[2]>>
        ELSE outcome = <<"ok">>

\* modules are only evaluated after those they use
DefinedInOrder == \A m \in defined : uses[m] \subseteq defined

\* a row is evaluated by one worker
OneWorker == \A v, w \in Workers : v # w /\ taken[v] # 0 => taken[v] # taken[w]

Ends == <>(phase = "done")

-----------------------------------------------------------------------------
Seqs(f, n) == [i \in 1..n |-> f[i]]
Emit == phase = "done" => CSVWrite("%1$s", <<ToJson([
            cells |-> [r \in Rows |-> [c \in 1..NCells |-> cells[r][c]]],
            uses |-> [i \in 1..(NMods + 1) |-> uses[i - 1]],
            kind |-> [m \in Mods |-> kind[m]],
            wrong |-> [m \in Mods |-> wrong[m]],
            blamable |-> Blamable,
            outcome |-> outcome])>>, IOEnv.CASES)
=============================================================================
