--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* Running csv++ again and again in a directory: the sources, the outputs, *)
(* their backups and the clock.  In between of the runs the environment    *)
(* edits the sources, breaks or removes outputs and lets time pass.        *)
(*                                                                         *)
(* A run is: read the arguments, compile, make a backup of the output if   *)
(* that's asked for, write the output.  Each of these can fail, which ends *)
(* the run there and then.  The disk can also be full, for the output, a   *)
(* backup or the object code.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS
    Mains, Deps,     \* kinds of sources, see Outcome
    Targets,         \* "csv" and "xlsx", and some which can't be written: "ods", "txt", "none", "nodir", "gs"
    Olds,            \* what the outputs can be at first or be replaced with: "none", "old", "junk", "dir"
    MaxRuns,
    Faults,          \* what can't be written in the last but one run because the disk is full, or "no"
    Days, Halves, Minutes, Seconds, Nanos,   \* what the clock can show
    Random

VARIABLES main, dep, out, backups, clock, log, ran, faulty, done

vars == <<main, dep, out, backups, clock, log, ran, faulty, done>>

Files == {"csv", "xlsx"}

-----------------------------------------------------------------------------
(* Compiling: the contents of the only cell, or "" if it's an error *)
UsesDep(m) == m \in {"a", "b"}

Outcome(m, d) ==
    CASE m = "plain" -> "hello"
      [] UsesDep(m) /\ d \in {"1", "2"} -> "=(" \o d \o " + m" \o m \o ")"
      [] OTHER -> ""

(* Backups: the names that one can have, in this order *)
Slots(c) == << <<c.day>>, <<c.day, c.half, c.minute>>, <<c.day, c.half, c.minute, c.second>>,
               <<c.day, c.half, c.minute, c.second, c.nano>> >>

Taken(t) == {b.slot : b \in {x \in backups : x.target = t}}

FreeSlot(t) ==
    LET s == Slots(clock)
        free == {i \in 1..4 : s[i] \notin Taken(t)}
    IN IF free = {} THEN <<>> ELSE s[CHOOSE i \in free : \A j \in free : i <= j]

(* Writing: whether it's possible, and what's there afterwards *)
Writable(t) == t \in Files /\ out[t] \notin {"junk", "dir"}

HasContents(x) == x # "none"

-----------------------------------------------------------------------------
\* the result of a run: where it ended, and the new outputs and backups.  "?" is something unknown
Result(t, backup, safe, fault) ==
    LET value == Outcome(main, dep)
        same(stage) == [stage |-> stage, out |-> out, backups |-> backups, full |-> FALSE]
        wants == backup /\ t \in Files /\ HasContents(out[t])
        slot == FreeSlot(t)
        saved == IF wants THEN backups \cup {[target |-> t, slot |-> slot, contents |-> out[t]]} ELSE backups
    IN CASE t \in {"none", "txt"} -> same("arguments")
         [] value = "" -> same("compile")
         [] fault = "object" -> [same("either") EXCEPT !.out = [out EXCEPT ![t] = "?"]]
         [] t = "gs" -> same("target")
         [] wants /\ slot = <<>> -> [same("backup") EXCEPT !.full = TRUE]
         [] wants /\ (out[t] = "dir" \/ fault = "backup") -> same("backup")
         [] ~Writable(t) -> [same("write") EXCEPT !.backups = saved]
         [] fault = "out" -> [same("write") EXCEPT !.backups = saved, !.out = [out EXCEPT ![t] = "?"]]
         [] OTHER -> [stage |-> "done", backups |-> saved, full |-> FALSE,
                      out |-> [out EXCEPT ![t] = IF safe /\ HasContents(out[t]) THEN out[t] ELSE value]]

Last == log[Len(log)]

Pick(S) == RandomElement(IF Len(log) < 0 THEN {} ELSE S)

Clocks == [day : Days, half : Halves, minute : Minutes, second : Seconds, nano : Nanos]

\* the environment does something
Edit == /\ ~ran /\ ~done /\ ~faulty /\ Len(log) < MaxRuns
        /\ \/ \E m \in IF Random THEN {Pick(Mains)} ELSE {} : main' = m /\ UNCHANGED <<dep, out, clock>>
           \/ \E d \in IF Random THEN {Pick(Deps)} ELSE {} : dep' = d /\ UNCHANGED <<main, out, clock>>
           \/ \E c \in IF Random THEN {Pick(Clocks)} ELSE {} : clock' = c /\ UNCHANGED <<main, dep, out>>
           \/ \E t \in Files, o \in IF Random THEN {Pick(Olds)} ELSE {} :
                 out' = [out EXCEPT ![t] = o] /\ UNCHANGED <<main, dep, clock>>
        /\ ran' = TRUE
        /\ UNCHANGED <<backups, log, faulty, done>>

\* the output isn't known anymore after some of the faults, but the next run makes it right
Runnable(t, backup, safe) == out[t] = "?" => ~safe /\ ~backup

RunOnce(t, backup, safe, cache, fault) ==
    LET r == Result(t, backup, safe, fault) IN
    /\ out' = r.out
    /\ backups' = r.backups
    /\ log' = Append(log, [main |-> main, dep |-> dep, clock |-> clock, before |-> out, target |-> t, backup |-> backup,
                           safe |-> safe, cache |-> cache, fault |-> fault, stage |-> r.stage, after |-> r.out,
                           value |-> IF t \in Files /\ safe /\ HasContents(out[t]) THEN out[t] ELSE Outcome(main, dep),
                           full |-> r.full,
                           added |-> {b.contents : b \in r.backups \ backups},
                           kept |-> backups \subseteq r.backups])
    /\ ran' = FALSE
    /\ faulty' = (fault # "no")
    /\ UNCHANGED <<main, dep, clock, done>>

DoRun == /\ ~done /\ Len(log) < MaxRuns /\ ~(faulty /\ Last.fault = "out")
         /\ \E t \in IF Random THEN {Pick(Targets)} ELSE Targets, backup \in BOOLEAN, safe \in BOOLEAN, cache \in BOOLEAN :
              /\ t \in Files \/ ~safe
              /\ t \in Files => Runnable(t, backup, safe)
              /\ \E fault \in Faults :
                    /\ fault # "no" => Len(log) = MaxRuns - 2 /\ t \in Files /\ Writable(t)
                    /\ RunOnce(t, backup, safe, cache, fault)

Finish == /\ ~done
          /\ Len(log) = MaxRuns \/ (faulty /\ \E t \in Files : out[t] = "?" /\ Last.fault = "out")
          /\ done' = TRUE
          /\ UNCHANGED <<main, dep, out, backups, clock, log, ran, faulty>>

\* names of backups can be taken already by something else
Foreign == {b \in [target : {"csv"}, slot : {Slots(clock)[i] : i \in {1, 2}}, contents : {"mine"}] : TRUE}

Init == /\ main \in Mains
        /\ dep \in Deps
        /\ UsesDep(main) \/ dep = "1" \/ Random
        /\ out \in IF Random THEN [Files -> {"none"}] ELSE {[csv |-> o, xlsx |-> o] : o \in Olds}
        /\ clock \in Clocks
        /\ backups \in {{}, Foreign}
        /\ log = <<>>
        /\ ran = FALSE
        /\ faulty = FALSE
        /\ done = FALSE

Next == Edit \/ DoRun \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a run which fails leaves the outputs as they were
FailuresChangeNothing == log # <<>> => (Last.stage # "done" /\ Last.fault \notin {"out", "object"} => Last.after = Last.before)

\* a run only changes the output that it was told to write
OthersAreUntouched == log # <<>> => \A t \in Files : Last.target # t => Last.after[t] = Last.before[t]

\* nothing that was there is lost if there's a backup of it
NothingIsLost ==
    log # <<>> => (Last.backup /\ Last.stage # "either" =>
        \A t \in Files : Last.after[t] # Last.before[t] /\ HasContents(Last.before[t]) => \* whatever it is that was written
            Last.before[t] \in Last.added)

\* backups are never changed or removed
BackupsAreKept == log # <<>> => Last.kept

NoTwoHaveTheSameName == \A a \in backups, b \in backups : a.target = b.target /\ a.slot = b.slot => a = b

\* there's only ever one more
AtMostOne == log # <<>> => Cardinality(Last.added) <= 1

Emit == done =>
    CSVWrite("%1$s", <<ToJson([runs |-> log,
                               foreign |-> {b.slot : b \in {x \in backups : x.contents = "mine"}}])>>, IOEnv.CASES)
=============================================================================
