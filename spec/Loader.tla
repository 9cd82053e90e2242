------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Loading the modules of a program.  Every module is loaded by a thread   *)
(* of its own, which reads and parses the file and then, holding a lock,   *)
(* reserves those of the modules it uses which no other thread has         *)
(* reserved.  A thread for each of these is started and waited for.        *)
(*                                                                         *)
(* The schedule is everything that the loader doesn't control: the order   *)
(* in which the contents of the files arrive, and how the threads          *)
(* interleave.  Whatever it is, all modules which can be reached are       *)
(* loaded once each and the outcome is the same.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization

CONSTANTS
    NMods,          \* the modules are 1..NMods, 0 is the main module
    Shape,          \* "any" import graph or only acyclic ("dag") ones
    NGraphs,        \* how many import graphs to choose at random, 0 for all
    Kinds,          \* what can be wrong with modules: a subset of {"ok", "missing", "broken"}
    Eager           \* do internal steps happen as soon as they can?

VARIABLES
    uses,           \* the import graph: module -> set of modules
    kind,           \* module -> "ok", "missing" or "broken"
    pc,             \* the thread of each module: "none", "opening", "reading", "parsed", "waiting", "loaded", "failed"
    parent,         \* the thread which started it
    attempted,      \* the modules which were reserved
    hist,           \* the modules in the order that their contents arrived
    opened          \* the modules that were being read whenever something arrived

vars == <<uses, kind, pc, parent, attempted, hist, opened>>

Mods == 1..NMods
All  == 0..NMods

AllGraphs == IF Shape = "any" THEN [All -> SUBSET Mods]
             ELSE {g \in [All -> SUBSET Mods] : \A m \in All : \A n \in g[m] : n > m}
Graphs == IF NGraphs = 0 THEN AllGraphs ELSE RandomSubset(NGraphs, AllGraphs)
KindsOf == {k \in [Mods -> Kinds] : Cardinality({m \in Mods : k[m] # "ok"}) <= 2}

Init == /\ uses \in Graphs
        /\ kind \in KindsOf
        /\ uses[0] # {}
        /\ pc = [m \in All |-> IF m = 0 THEN "parsed" ELSE "none"]
        /\ parent = [m \in Mods |-> -1]
        /\ attempted = {}
        /\ hist = <<>> /\ opened = <<>>

\* the file is opened, which fails if there is none
Open(m) == /\ pc[m] = "opening"
           /\ pc' = [pc EXCEPT ![m] = IF kind[m] = "missing" THEN "failed" ELSE "reading"]
           /\ UNCHANGED <<uses, kind, parent, attempted, hist, opened>>

Reserve(m) == /\ pc[m] = "parsed"
              /\ LET new == uses[m] \ attempted IN
                 /\ attempted' = attempted \cup new
                 /\ parent' = [n \in Mods |-> IF n \in new THEN m ELSE parent[n]]
                 /\ pc' = [n \in All |-> IF n \in new THEN "opening" ELSE IF n = m THEN "waiting" ELSE pc[n]]
              /\ UNCHANGED <<uses, kind, hist, opened>>

Join(m) == /\ pc[m] = "waiting"
           /\ \A n \in Mods : parent[n] = m => pc[n] \in {"loaded", "failed"}
           /\ pc' = [pc EXCEPT ![m] = "loaded"]
           /\ UNCHANGED <<uses, kind, parent, attempted, hist, opened>>

Internal == \E m \in All : (m # 0 /\ Open(m)) \/ Reserve(m) \/ Join(m)

\* the contents of a file arrive
Deliver(m) == /\ pc[m] = "reading"
              /\ pc' = [pc EXCEPT ![m] = IF kind[m] = "broken" THEN "failed" ELSE "parsed"]
              /\ hist' = Append(hist, m)
              /\ opened' = Append(opened, {n \in Mods : pc[n] = "reading"})
              /\ UNCHANGED <<uses, kind, parent, attempted>>

Next == \/ Internal
        \/ \E m \in Mods : Deliver(m) /\ (Eager => ~ENABLED Internal)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Done == pc[0] = "loaded"

\* what can be reached through modules which can be loaded
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {uses[m] : m \in {n \in S : n = 0 \/ kind[n] = "ok"}} IN
            IF T = S THEN S ELSE Reach(T)
Reached == Reach({0}) \ {0}

Once == \A i, j \in 1..Len(hist) : hist[i] = hist[j] => i = j

AllOfThem == Done => /\ attempted = Reached
                     /\ \A m \in Mods : pc[m] = "loaded" <=> m \in Reached /\ kind[m] = "ok"
                     /\ \A m \in Mods : pc[m] = "failed" <=> m \in Reached /\ kind[m] # "ok"

NotEarly == Done => \A m \in Mods : pc[m] \in {"none", "loaded", "failed"}

NoDeadlock == Done \/ ENABLED Next

Ends == <>Done

-----------------------------------------------------------------------------
(* The program: every module defines `ownN`, a number, and `v<N>` which    *)
(* refers to what it uses, transitively if there is no cycle.              *)

RECURSIVE Below(_)
Below(S) == LET T == S \cup UNION {uses[m] : m \in S} IN IF T = S THEN S ELSE Below(T)
Acyclic == \A m \in Mods : m \notin Below(uses[m])

Ref(m) == (IF Acyclic THEN "v" ELSE "own") \o ToString(m)

RECURSIVE Sum(_, _, _)
\* "((acc + x) + y)" for the texts of the modules in S, in order
Sum(acc, S, f) ==
    IF S = {} THEN acc
    ELSE LET n == CHOOSE n \in S : \A k \in S : n <= k
         IN Sum("(" \o acc \o " + " \o f[n] \o ")", S \ {n}, f)

Own(m) == ToString(100 + m)
Def(m) == Sum(Own(m), uses[m] \ {m}, [n \in Mods |-> Ref(n)])

RECURSIVE Value(_)
Value(m) == IF Acyclic THEN Sum(Own(m), uses[m], [n \in uses[m] |-> Value(n)])
            ELSE Sum(Own(m), uses[m] \ {m}, [n \in Mods |-> Own(n)])

Emit == Done =>
    CSVWrite("%1$s", <<ToJson([
        uses |-> [m \in All |-> uses[m]], kind |-> kind, order |-> hist, opened |-> opened,
        def |-> [m \in Mods |-> Def(m)],
        failed |-> {m \in Mods : pc[m] = "failed"},
        cells |-> [m \in Mods |-> IF m \in uses[0] /\ ~(\E n \in Mods : pc[n] = "failed") THEN Value(m) ELSE ""]
        ])>>, IOEnv.CASES)
=============================================================================
