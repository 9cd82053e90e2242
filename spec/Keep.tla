-------------------------------- MODULE Keep --------------------------------
(***************************************************************************)
(* What becomes of everything else that there is about the cells of an     *)
(* existing Excel file when modules are written to it: formats, notes and  *)
(* data validations, which can be of one cell or of a range.  (Target.tla  *)
(* is about their values.)                                                 *)
(*                                                                         *)
(* A cell which is written gets the format of the module, and its note and *)
(* validation if it has any.  Otherwise it's left open whether it keeps    *)
(* what was there.  Cells which are not written keep all of it.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS
    Cells,      \* the ones which are looked at
    Sizes,      \* of modules (rows and columns)
    Ranges,     \* which can have a validation (from a cell to another), <<>> for none
    MaxWrites,
    Random      \* choose randomly instead of trying all of them

VARIABLES value,    \* of each cell
          format,
          notes,    \* of each cell, those which it can have ("" is none)
          rules,    \* of each cell, the sets of validations that it can have
          old, log, done

vars == <<value, format, notes, rules, old, log, done>>

-----------------------------------------------------------------------------
Letter(c) == CASE c = 1 -> "A" [] c = 2 -> "B" [] OTHER -> "C"
Name(p) == Letter(p[2]) \o ToString(p[1])
In(p, range) == range # <<>> /\ p[1] \in range[1][1]..range[2][1] /\ p[2] \in range[1][2]..range[2][2]
InSize(p, size) == p[1] <= size[1] /\ p[2] <= size[2]

Olds == [v : BOOLEAN, note : BOOLEAN, rule : BOOLEAN]
News == [v : BOOLEAN, note : BOOLEAN, rule : BOOLEAN, italic : BOOLEAN]

\* RandomElement of something which depends on the state, or else it's evaluated once
Pick(S) == RandomElement(IF Len(log) < 0 THEN {} ELSE S)

\* the cells which no module of these sizes has
Never == {p \in Cells : \A s \in Sizes : ~InSize(p, s)}

Start(cells, range) ==
    /\ old' = [cells |-> cells, range |-> range]
    /\ value'  = [p \in Cells |-> IF cells[p].v THEN "old " \o Name(p) ELSE ""]
    /\ format' = [p \in Cells |-> "bold"]
    /\ notes'  = [p \in Cells |-> {IF cells[p].note THEN "note " \o Name(p) ELSE ""}]
    /\ rules'  = [p \in Cells |-> {(IF cells[p].rule THEN {"OLD" \o Name(p)} ELSE {}) \cup (IF In(p, range) THEN {"RANGE"} ELSE {})}]

Init == /\ value = <<>> /\ format = <<>> /\ notes = <<>> /\ rules = <<>> /\ old = <<>>
        /\ log = <<>> /\ done = FALSE

Begin == /\ old = <<>>
         /\ IF Random THEN \E cells \in {[p \in Cells |-> Pick(Olds)]}, range \in {Pick(Ranges)} : Start(cells, range)
            ELSE \E cells \in [Cells \ Never -> Olds], range \in Ranges :
                    Start([p \in Cells |-> IF p \in Never THEN [v |-> TRUE, note |-> TRUE, rule |-> TRUE] ELSE cells[p]], range)
         /\ UNCHANGED <<log, done>>

Write(size, m, safe) ==
    LET k == ToString(Len(log) + 1)
        written == {p \in Cells : InSize(p, size) /\ ~(safe /\ value[p] # "")}
    IN /\ value'  = [p \in Cells |-> IF p \notin written THEN value[p] ELSE IF m[p].v THEN "new" \o k \o " " \o Name(p) ELSE ""]
       /\ format' = [p \in Cells |-> IF p \notin written THEN format[p] ELSE IF m[p].italic THEN "italic" ELSE ""]
       /\ notes'  = [p \in Cells |-> IF p \notin written THEN notes[p]
                                     ELSE IF m[p].note THEN {"note" \o k \o " " \o Name(p)} ELSE notes[p] \cup {""}]
       /\ rules'  = [p \in Cells |-> IF p \notin written THEN rules[p]
                                     ELSE IF m[p].rule THEN UNION {{{"NEW" \o k}, {"NEW" \o k} \cup (R \cap {"RANGE"})} : R \in rules[p]}
                                     ELSE UNION {SUBSET R : R \in rules[p]}]
       /\ log' = Append(log, [size |-> size, safe |-> safe,
                              cells |-> {[at |-> p, m |-> m[p]] : p \in {q \in Cells : InSize(q, size)}},
                              after |-> {[at |-> Name(p), value |-> value'[p], format |-> format'[p], notes |-> notes'[p], rules |-> rules'[p]] : p \in Cells}])
       /\ UNCHANGED <<old, done>>

Next == \/ Begin
        \/ old # <<>> /\ ~done /\ Len(log) < MaxWrites /\
           IF Random THEN \E size \in {Pick(Sizes)}, m \in {[p \in Cells |-> Pick(News)]}, safe \in {Pick(BOOLEAN)} : Write(size, m, safe)
           ELSE \E size \in Sizes, safe \in BOOLEAN : \E m \in [{p \in Cells : InSize(p, size)} -> News] :
                    Write(size, [p \in Cells |-> IF InSize(p, size) THEN m[p] ELSE [v |-> FALSE, note |-> FALSE, rule |-> FALSE, italic |-> FALSE]], safe)
        \/ log # <<>> /\ ~done /\ Len(log) = MaxWrites /\ done' = TRUE /\ UNCHANGED <<value, format, notes, rules, old, log>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* nothing about a cell which isn't part of any module is ever lost, and nothing else appears there
Untouched == old # <<>> => \A p \in Never :
    /\ value[p] = (IF old.cells[p].v THEN "old " \o Name(p) ELSE "") /\ format[p] = "bold"
    /\ notes[p] = {IF old.cells[p].note THEN "note " \o Name(p) ELSE ""}
    /\ Cardinality(rules[p]) = 1

\* it is the module's if the module has one
Last == log[Len(log)]
Wins == log # <<>> => \A x \in Last.cells :
    value[x.at] = "new" \o ToString(Len(log)) \o " " \o Name(x.at) =>
        /\ x.m.note => notes[x.at] = {"note" \o ToString(Len(log)) \o " " \o Name(x.at)}
        /\ x.m.rule => \A R \in rules[x.at] : "NEW" \o ToString(Len(log)) \in R

Emit == done =>
    CSVWrite("%1$s", <<ToJson([kind |-> "keep",
                               old |-> {[at |-> Name(p), c |-> old.cells[p]] : p \in Cells},
                               range |-> IF old.range = <<>> THEN "" ELSE Name(old.range[1]) \o ":" \o Name(old.range[2]),
                               writes |-> log])>>, IOEnv.CASES)

-----------------------------------------------------------------------------
\* for the configurations
OneCells == {<<1, 1>>, <<1, 2>>}
OneSizes == {<<1, 1>>}
OneRanges == {<<>>, <<<<1, 1>>, <<1, 2>>>>}
ManyCells == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<11, 1>>, <<11, 2>>, <<10, 1>>, <<1, 3>>, <<12, 1>>}
ManySizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<11, 1>>, <<11, 2>>}
ManyRanges == {<<>>, <<<<1, 1>>, <<2, 2>>>>, <<<<2, 1>>, <<12, 1>>>>, <<<<1, 1>>, <<12, 1>>>>, <<<<1, 1>>, <<1, 3>>>>, <<<<11, 1>>, <<12, 2>>>>}
=============================================================================
