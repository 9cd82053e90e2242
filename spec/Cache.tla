------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* Separate compilation with object code that is cached next to the        *)
(* source, over histories of editing, compiling, and damaging or deleting  *)
(* the object code, with a clock that may or may not advance in between.   *)
(*                                                                         *)
(* Both the protocol which decides what can be re-used and what is to be   *)
(* observed, which is the result of compiling everything from scratch, are *)
(* specified.  The protocol is checked to be transparent.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS
    MaxTime,
    Still,          \* can the clock stand still, or can older sources take the place of others?
    MaxDepth,       \* the number of steps, without a history
    Few,            \* only some of the contents
    Deep,           \* a chain of four modules (A, m1, m2 and m3) instead of three, with other contents
    MaxHist,        \* the length of the histories, 0 to not keep any
    Start           \* "empty", or "built" if A was compiled in the beginning

VARIABLES src, mt,  \* the content and modification time of the sources
          obj,      \* object code
          now,
          hist

vars == <<src, mt, obj, now, hist>>
view == <<src, mt, obj, now, Len(hist)>>

Files == {"A", "B", "m1", "m2"} \cup IF Deep THEN {"m3"} ELSE {}
Mains == {"A", "B", "m1"}

Contents == IF Deep THEN [A |-> {"c1", "c2"}, B |-> {"c1"}, m1 |-> {"c1", "c2"}, m2 |-> {"via", "c1"}, m3 |-> {"c1", "c2", "gone"}]
            ELSE IF Few THEN [A |-> {"c1", "c2"}, B |-> {"c1"}, m1 |-> {"c1", "c3"}, m2 |-> {"c1", "c2", "bad"}]
            ELSE [A |-> {"c1", "c2", "c3"}, B |-> {"c1", "bad"}, m1 |-> {"c1", "c2", "c3", "c4", "gone"}, m2 |-> {"c1", "c2", "c3", "none", "bad", "gone"}]

Uses(f, c) == CASE c \in {"bad", "gone"} -> <<>>
                [] f = "A" -> (CASE c = "c1" -> <<"m1">> [] c = "c2" -> <<"m1", "m2">> [] OTHER -> <<>>)
                [] f = "B" -> <<"m2">>
                [] f = "m1" -> IF c = "c3" THEN <<>> ELSE <<"m2">>
                [] c = "via" -> <<"m3">>
                [] OTHER -> <<>>

(* The meaning of a module, given the meaning of what it uses *)
Unknown == [p |-> "", q |-> "", r |-> ""]
Or(x, y) == IF x = "" THEN y ELSE x
Exports(f, c, dep(_)) ==
    CASE f = "m3" -> [Unknown EXCEPT !.r = IF c = "c1" THEN "8" ELSE "9"]
      [] f = "m2" -> (CASE c = "c1" -> [Unknown EXCEPT !.p = "1"] [] c = "c2" -> [Unknown EXCEPT !.p = "2"] [] c = "none" -> Unknown
                        [] c = "via" -> [Unknown EXCEPT !.p = Or(dep("m3").r, "r")]
                        [] OTHER -> [p |-> "(1 + 1)", q |-> "5", r |-> ""])
      [] f = "m1" -> (CASE c = "c1" -> [Unknown EXCEPT !.q = Or(dep("m2").p, "p")]
                        [] c = "c2" -> [Unknown EXCEPT !.q = "(" \o Or(dep("m2").p, "p") \o " + 1)"]
                        [] c = "c3" -> [Unknown EXCEPT !.q = "9"]
                        [] OTHER    -> [p |-> "7", q |-> "7", r |-> ""])
      [] OTHER -> Unknown


\* the cells =q, =p and =k; as a main module m1 has them as well
Cells(f, c, dep(_), kv) ==
    LET k == IF kv THEN "5" ELSE "k" IN
    CASE f = "A" -> (CASE c = "c1" -> <<Or(dep("m1").q, "q"), Or(dep("m1").p, "p"), k>>
                       [] c = "c2" -> <<Or(dep("m2").q, Or(dep("m1").q, "q")), Or(dep("m2").p, Or(dep("m1").p, "p")), k>>
                       [] OTHER -> <<"q", "p", k>>)
      [] f = "B" -> <<Or(dep("m2").q, "q"), Or(dep("m2").p, "p"), k>>
      [] f = "m1" -> <<Exports(f, c, dep).q, (CASE c = "c3" -> "p" [] c = "c4" -> "7" [] OTHER -> Or(dep("m2").p, "p")), k>>

RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {{Uses(f, src[f])[i] : i \in 1..Len(Uses(f, src[f]))} : f \in S} IN
            IF T = S THEN S ELSE Reach(T)
Deps(f) == Reach({f}) \ {f}
Broken(f) == \E d \in Reach({f}) : src[d] \in {"bad", "gone"}

(* Everything from scratch *)
RECURSIVE CleanExports(_)
CleanExports(f) == Exports(f, src[f], LAMBDA d : CleanExports(d))
CleanResult(f, kv) == IF Broken(f) THEN <<"error">> ELSE Cells(f, src[f], LAMBDA d : CleanExports(d), kv)

-----------------------------------------------------------------------------
(* The protocol *)
None == [k |-> "none"]

\* is the object code of that very source, and more recent, and in a state to be used in that role?
Fresh(f, role) == obj[f] # None /\ obj[f].ok /\ obj[f].role = role /\ obj[f].t > mt[f] /\ obj[f].from = src[f]

Direct(f) == {Uses(f, src[f])[i] : i \in 1..Len(Uses(f, src[f]))}

\* what has to be compiled again, out of the dependencies of a main module
RECURSIVE Dirty(_, _)
Dirty(S, D) == LET E == D \cup {f \in S : ~Fresh(f, "dep") \/ \E d \in Direct(f) : d \in D \/ (obj[d] # None /\ obj[d].t > obj[f].t)} IN
               IF E = D THEN D ELSE Dirty(S, E)

RECURSIVE ViaCache(_, _)
ViaCache(D, f) == IF f \in D THEN Exports(f, src[f], LAMBDA d : ViaCache(D, d)) ELSE obj[f].val

UseCache(mode)    == mode # "nocache"
ToCompile(f, mode) == IF UseCache(mode) THEN Dirty(Deps(f), {}) ELSE Deps(f)
CachedMain(f, mode) == /\ mode = "cache"
                       /\ Fresh(f, "main")
                       /\ \A d \in Direct(f) : d \notin ToCompile(f, mode) /\ obj[d].t <= obj[f].t

Result(f, mode) ==
    LET D == ToCompile(f, mode) IN
    IF Broken(f) THEN <<"error">>
    ELSE IF CachedMain(f, mode) THEN obj[f].val
    ELSE Cells(f, src[f], LAMBDA d : ViaCache(D, d), mode = "kv")

\* whose object code is written
Written(f, mode) == IF Broken(f) \/ ~UseCache(mode) THEN {}
                    ELSE ToCompile(f, mode) \cup (IF mode = "cache" /\ ~CachedMain(f, mode) THEN {f} ELSE {})

Compile(f, mode) ==
    LET D == ToCompile(f, mode)
        cached == CachedMain(f, mode)
        res == Result(f, mode)
    IN /\ obj' = IF Broken(f) \/ ~UseCache(mode) THEN obj
                 ELSE [g \in Files |->
                        IF g \in D THEN [k |-> "obj", t |-> now, role |-> "dep", ok |-> TRUE, from |-> src[g], val |-> ViaCache(D, g)]
                        ELSE IF g = f /\ ~cached /\ mode = "cache" THEN [k |-> "obj", t |-> now, role |-> "main", ok |-> TRUE, from |-> src[g], val |-> res]
                        ELSE obj[g]]
       /\ UNCHANGED <<src, mt>>

Record(e) == hist' = IF MaxHist = 0 THEN hist ELSE Append(hist, e)

DoCompile == \E f \in Mains, mode \in {"cache", "nocache", "kv"} :
                /\ src[f] # "gone"
                /\ Compile(f, mode)
                /\ Record([op |-> "compile", f |-> f, how |-> mode, t |-> now, want |-> CleanResult(f, mode = "kv"), wrote |-> Written(f, mode)])
Edit == \E f \in Files : \E c \in Contents[f] \ {src[f]} :
            /\ src' = [src EXCEPT ![f] = c] /\ mt' = [mt EXCEPT ![f] = now]
            /\ Record([op |-> "edit", f |-> f, how |-> c, t |-> now, want |-> <<>>, wrote |-> {}])
            /\ UNCHANGED obj
\* a source which is older takes the place of it, or it was edited while it was compiled, which is the same.
\* (the clock has to advance, otherwise it couldn't be told what was compiled first)
Replace == ~Still /\ \E f \in Files : \E c \in Contents[f] \ {src[f], "gone"} :
            /\ src' = [src EXCEPT ![f] = c] /\ mt' = [mt EXCEPT ![f] = 0]
            /\ Record([op |-> "replace", f |-> f, how |-> c, t |-> 0, want |-> <<>>, wrote |-> {}])
            /\ UNCHANGED obj
Touch == \E f \in Files : /\ src[f] # "gone" /\ mt[f] # now
                          /\ mt' = [mt EXCEPT ![f] = now]
                          /\ Record([op |-> "touch", f |-> f, how |-> "", t |-> now, want |-> <<>>, wrote |-> {}])
                          /\ UNCHANGED <<src, obj>>
Damage == \E f \in Files : \E how \in IF Few THEN {"empty"} ELSE {"truncate", "empty", "garbage", "older", "newer"} :
            /\ obj[f] # None /\ obj[f].ok
            /\ obj' = [obj EXCEPT ![f].ok = FALSE]
            /\ Record([op |-> "damage", f |-> f, how |-> how, t |-> now, want |-> <<>>, wrote |-> {}])
            /\ UNCHANGED <<src, mt>>
Remove == \E f \in Files :
            /\ obj[f] # None
            /\ obj' = [obj EXCEPT ![f] = None]
            /\ Record([op |-> "remove", f |-> f, how |-> "", t |-> now, want |-> <<>>, wrote |-> {}])
            /\ UNCHANGED <<src, mt>>
\* the whole directory is moved to somewhere else
Move == /\ MaxHist > 0
        /\ Record([op |-> "move", f |-> "", how |-> "", t |-> now, want |-> <<>>, wrote |-> {}])
        /\ UNCHANGED <<src, mt, obj>>

Init == /\ src = [f \in Files |-> IF Deep /\ f = "m2" THEN "via" ELSE "c1"]
        /\ mt = [f \in Files |-> 0]
        /\ now = 1
        /\ IF Start = "empty" THEN obj = [f \in Files |-> None] /\ hist = <<>>
           ELSE /\ obj = [f \in Files |->
                            IF f = "B" THEN None
                            ELSE [k |-> "obj", t |-> 1, role |-> IF f = "A" THEN "main" ELSE "dep", ok |-> TRUE, from |-> src[f],
                                  val |-> IF f = "A" THEN CleanResult(f, FALSE) ELSE CleanExports(f)]]
                /\ hist = <<[op |-> "compile", f |-> "A", how |-> "cache", t |-> 1, want |-> CleanResult("A", FALSE), wrote |-> Files \ {"B"}]>>

\* the clock stands still or it advances after every step
Next == /\ now' \in IF Still THEN {now, now + 1} ELSE {now + 1}
        /\ now' <= MaxTime
        /\ MaxHist = 0 \/ Len(hist) < MaxHist
        /\ DoCompile \/ Edit \/ Replace \/ Touch \/ Damage \/ Remove \/ Move

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Whatever is compiled next, the result is that of compiling it from scratch *)
Transparent == \A f \in Mains, mode \in {"cache", "nocache", "kv"} :
    src[f] # "gone" => Result(f, mode) = CleanResult(f, mode = "kv")

\* object code which would be used always has what the module means
NoStaleObjects == \A f \in Files : (Fresh(f, "dep") /\ ~Broken(f) /\ Dirty(Reach({f}), {}) = {}) => obj[f].val = CleanExports(f)

\* nothing is compiled twice in a row, neither as a main module nor as a dependency
NotAgain == \A f \in Mains : (src[f] # "gone" /\ ~Broken(f) /\ CachedMain(f, "cache")) => Written(f, "cache") = {}
\* what was just compiled is up to date, unless the clock stands still
UpToDate == [][\A f \in Mains : (~Still /\ src[f] # "gone" /\ ~Broken(f) /\ obj' # obj /\ Compile(f, "cache"))
                                    => Written(f, "cache")' = {}]_vars

Bounded == TLCGet("level") <= MaxDepth

Emit == (MaxHist > 0 /\ Len(hist) = MaxHist /\ hist[MaxHist].op = "compile") =>
            CSVWrite("%1$s", <<ToJson([deep |-> Deep, hist |-> hist])>>, IOEnv.CASES)
=============================================================================
