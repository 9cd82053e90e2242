---------------------------- MODULE TraceLoader ----------------------------
(***************************************************************************)
(* Checks traces that were recorded from the real loader: is each of them  *)
(* a behaviour of Loader?  The modules being opened and their contents     *)
(* being delivered was observed, everything else is internal.              *)
(***************************************************************************)
EXTENDS Loader
VARIABLES tr, pos       \* the trace, and how much of it was matched

Traces == ndJsonDeserialize(IOEnv.TRACES)

tvars == <<uses, kind, pc, parent, attempted, hist, opened, tr, pos>>

ToSet(s) == {s[i] : i \in 1..Len(s)}
Events == Traces[tr].events

TInit == /\ tr \in 1..Len(Traces)
         /\ pos = 1
         /\ uses = [m \in All |-> ToSet(Traces[tr].uses[m + 1])]
         /\ kind = [m \in Mods |-> Traces[tr].kind[m]]
         /\ pc = [m \in All |-> IF m = 0 THEN "parsed" ELSE "none"]
         /\ parent = [m \in Mods |-> -1]
         /\ attempted = {}
         /\ hist = <<>> /\ opened = <<>>

Silent == \/ \E m \in Mods : kind[m] = "missing" /\ Open(m)
          \/ \E m \in All : Reserve(m) \/ Join(m)

Observed == /\ pos <= Len(Events)
            /\ LET e == Events[pos] IN
               \/ e[1] = "open" /\ Open(e[2]) /\ kind[e[2]] # "missing"
               \/ e[1] = "deliver" /\ Deliver(e[2])

TNext == \/ /\ Silent /\ UNCHANGED <<tr, pos>>
         \/ /\ Observed /\ pos' = pos + 1 /\ UNCHANGED tr

TSpec == TInit /\ [][TNext]_tvars

\* silent steps are confluent, so only take them in one order
Accept == (pos > Len(Events) /\ Done) => CSVWrite("%1$s", <<ToJson([trace |-> Traces[tr].id])>>, IOEnv.CASES)
=============================================================================
