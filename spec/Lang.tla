-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* How the variables and functions of a code section are expanded.         *)
(*                                                                         *)
(* The semantics is a small-step rewriting system.  Every reference and    *)
(* call remembers the definitions which it is inside of (its `h`), those   *)
(* aren't expanded again.  One step replaces one reference by its          *)
(* definition or one call, the arguments of which are expanded already, by *)
(* the body of its function.  Steps can happen anywhere in the term and in *)
(* any order: TLC explores all of them and checks that the order doesn't   *)
(* matter (the rewriting is confluent), that it ends, and that what it     *)
(* ends in is the big-step meaning of the cell.                            *)
(*                                                                         *)
(* Initial states are programs: a code section made of definitions out of  *)
(* pools, and the formula of a cell.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS VarPool, FnPool, CellPool    \* which of the pools below to use

VARIABLES prog,     \* the definitions
          cell,     \* the formula of the cell, as it was written
          term,     \* and as it's been rewritten so far
          steps,    \* the number of steps it took
          want      \* what it has to end as

vars == <<prog, cell, term, steps, want>>

-----------------------------------------------------------------------------
(* Terms *)
N(v)        == [k |-> "n", v |-> v]
R(v)        == [k |-> "r", v |-> v, h |-> {}]
I(l, op, r) == [k |-> "i", l |-> l, op |-> op, r |-> r]
C(f, as)    == [k |-> "c", f |-> f, as |-> as, h |-> {}]
Error       == [k |-> "error"]
None        == [k |-> "none"]
Fn(ps, b)   == [ps |-> ps, b |-> b]

(***************************************************************************)
(* The pools that programs are made of                                     *)
(***************************************************************************)
VarPools ==
  [small |-> [a |-> <<None, N("1"), R("b"), I(R("b"), "+", N("1")), C("f", <<R("b")>>), I(R("a"), "*", N("2")), R("x"), R("q")>>,
              b |-> <<N("2"), R("a"), I(R("a"), "-", R("a")), C("f", <<R("a")>>), R("x"), C("b", <<N("1"), R("x")>>), R("f")>>],
   large |-> [a |-> <<None, N("1"), R("b"), I(R("b"), "+", N("1")), C("f", <<R("b")>>), I(R("a"), "*", N("2")), R("x"), R("q"),
                      C("f", <<C("f", <<R("b")>>)>>), C("b", <<R("b"), R("a")>>), C("h", <<>>), R("h")>>,
              b |-> <<None, N("2"), R("a"), I(R("a"), "-", R("a")), C("f", <<R("a")>>), R("x"), C("b", <<N("1"), R("x")>>), R("f"),
                      R("b"), I(R("x"), "*", R("y")), C("SUM", <<R("a"), R("q")>>)>>]]

FnPools ==
  [small |-> [f |-> <<Fn(<<"x">>, R("x")), Fn(<<"x">>, I(R("x"), "+", R("a"))), Fn(<<"x">>, C("f", <<R("x")>>)),
                      Fn(<<"x">>, C("b", <<R("a"), R("x")>>)), Fn(<<"x">>, I(R("x"), "*", R("x"))), Fn(<<"a">>, I(R("a"), "-", R("b"))),
                      Fn(<<"x">>, R("f"))>>,
              b |-> <<None, Fn(<<"x", "y">>, I(R("y"), "-", R("x"))), Fn(<<"y", "a">>, I(R("a"), "+", R("b"))),
                      Fn(<<"x", "y">>, C("f", <<I(R("y"), "+", R("x"))>>)), Fn(<<"x", "y">>, C("b", <<R("y"), R("x")>>))>>,
              h |-> <<None>>],
   large |-> [f |-> <<None, Fn(<<"x">>, R("x")), Fn(<<"x">>, I(R("x"), "+", R("a"))), Fn(<<"x">>, C("f", <<R("x")>>)),
                      Fn(<<"x">>, C("b", <<R("a"), R("x")>>)), Fn(<<"x">>, I(R("x"), "*", R("x"))), Fn(<<"a">>, I(R("a"), "-", R("b"))),
                      Fn(<<"x">>, R("f")), Fn(<<"x">>, C("h", <<>>)), Fn(<<"x">>, N("7"))>>,
              b |-> <<None, Fn(<<"x", "y">>, I(R("y"), "-", R("x"))), Fn(<<"y", "a">>, I(R("a"), "+", R("b"))),
                      Fn(<<"x", "y">>, C("f", <<I(R("y"), "+", R("x"))>>)), Fn(<<"x", "y">>, C("b", <<R("y"), R("x")>>)),
                      Fn(<<"b", "f">>, C("f", <<R("b")>>))>>,
              h |-> <<None, Fn(<<>>, I(R("a"), "+", R("x"))), Fn(<<>>, C("h", <<>>)), Fn(<<>>, C("f", <<C("b", <<R("a"), R("b")>>)>>))>>]]

CellPools ==
  [small |-> <<R("a"), C("f", <<N("1")>>), C("f", <<R("a")>>), C("f", <<R("x")>>), C("b", <<R("a"), R("b")>>),
               C("b", <<C("f", <<R("a")>>), R("y")>>), C("f", <<C("f", <<N("1")>>)>>), I(R("a"), "+", R("b")),
               C("f", <<>>), C("SUM", <<R("A1"), C("f", <<R("b")>>), R("a")>>), R("f")>>,
   large |-> <<R("a"), R("b"), C("f", <<R("a")>>), C("f", <<R("x")>>), C("b", <<R("a"), R("b")>>),
               C("b", <<C("f", <<R("a")>>), R("y")>>), C("b", <<R("y"), R("x")>>), C("f", <<C("f", <<N("1")>>)>>), I(R("a"), "+", R("b")),
               C("f", <<N("1"), N("2")>>), C("b", <<C("f", <<>>), R("a")>>), C("h", <<>>), C("h", <<R("a")>>),
               C("SUM", <<R("A1"), C("f", <<R("b")>>), R("a")>>), R("f"), I(C("f", <<I(R("a"), "*", R("b"))>>), "/", C("b", <<R("a"), N("1")>>))>>]

Range(s) == {s[i] : i \in 1..Len(s)}

Programs == {[vars |-> [a |-> va, b |-> vb], fns |-> [f |-> ff, b |-> fb, h |-> fh]] :
                va \in Range(VarPools[VarPool].a), vb \in Range(VarPools[VarPool].b), ff \in Range(FnPools[FnPool].f),
                fb \in Range(FnPools[FnPool].b), fh \in Range(FnPools[FnPool].h)}
Cells == Range(CellPools[CellPool])

\* note that `b` is both a variable and a function
VarOf(p, v) == IF v \in DOMAIN p.vars THEN p.vars[v] ELSE None
FnOf(p, f)  == IF f \in DOMAIN p.fns THEN p.fns[f] ELSE None

-----------------------------------------------------------------------------
(* The body of a definition, inside of `h`, with `bind` for its parameters *)

RECURSIVE Instance(_, _, _, _)
Instance(b, h, ps, as) ==
    CASE b.k = "n" -> b
      [] b.k = "r" -> IF \E i \in 1..Len(ps) : ps[i] = b.v
                      THEN as[CHOOSE i \in 1..Len(ps) : ps[i] = b.v]
                      ELSE [b EXCEPT !.h = h]
      [] b.k = "i" -> [b EXCEPT !.l = Instance(b.l, h, ps, as), !.r = Instance(b.r, h, ps, as)]
      [] b.k = "c" -> [b EXCEPT !.h = h, !.as = [i \in 1..Len(b.as) |-> Instance(b.as[i], h, ps, as)]]

(* All terms after one step *)
RECURSIVE Steps(_, _)
Steps(p, e) ==
    CASE e.k \in {"n", "error"} -> {}
      [] e.k = "r" ->
            LET d == VarOf(p, e.v) IN
            IF d = None \/ <<"v", e.v>> \in e.h THEN {}
            ELSE {Instance(d, e.h \cup {<<"v", e.v>>}, <<>>, <<>>)}
      [] e.k = "i" -> {IF l = Error THEN Error ELSE [e EXCEPT !.l = l] : l \in Steps(p, e.l)}
                      \cup {IF r = Error THEN Error ELSE [e EXCEPT !.r = r] : r \in Steps(p, e.r)}
      [] e.k = "c" ->
            LET inside == UNION {{IF a = Error THEN Error ELSE [e EXCEPT !.as[i] = a] : a \in Steps(p, e.as[i])} : i \in 1..Len(e.as)}
                d == FnOf(p, e.f)
            IN IF inside # {} THEN inside
               ELSE IF d = None \/ <<"f", e.f>> \in e.h THEN {}
               ELSE IF Len(d.ps) # Len(e.as) THEN {Error}
               ELSE {Instance(d.b, e.h \cup {<<"f", e.f>>}, d.ps, e.as)}

(* The big-step meaning of a term *)
RECURSIVE Meaning(_, _)
Meaning(p, e) ==
    CASE e.k \in {"n", "error"} -> e
      [] e.k = "r" ->
            LET d == VarOf(p, e.v) IN
            IF d = None \/ <<"v", e.v>> \in e.h THEN e
            ELSE Meaning(p, Instance(d, e.h \cup {<<"v", e.v>>}, <<>>, <<>>))
      [] e.k = "i" -> LET l == Meaning(p, e.l)
                          r == Meaning(p, e.r)
                      IN IF Error \in {l, r} THEN Error ELSE [e EXCEPT !.l = l, !.r = r]
      [] e.k = "c" ->
            LET as == [i \in 1..Len(e.as) |-> Meaning(p, e.as[i])]
                d  == FnOf(p, e.f)
            IN IF Error \in Range(as) THEN Error
               ELSE IF d = None \/ <<"f", e.f>> \in e.h THEN [e EXCEPT !.as = as]
               ELSE IF Len(d.ps) # Len(as) THEN Error
               ELSE Meaning(p, Instance(d.b, e.h \cup {<<"f", e.f>>}, d.ps, as))

-----------------------------------------------------------------------------
Init == /\ prog \in Programs
        /\ cell \in Cells
        /\ term = cell
        /\ steps = 0
        /\ want = Meaning(prog, cell)

Next == /\ \E t \in Steps(prog, term) : term' = t
        /\ steps' = steps + 1
        /\ UNCHANGED <<prog, cell, want>>

Spec == Init /\ [][Next]_vars

Done == Steps(prog, term) = {}

-----------------------------------------------------------------------------
(* Whatever the order of the steps, they preserve the meaning and end in it *)
Confluent == Done => term = want
MeaningIsPreserved == Meaning(prog, term) = want

(* Every definition is expanded at most once inside of itself, so it ends *)
Terminates == steps <= 200

RECURSIVE RefsIn(_)
RefsIn(e) == CASE e.k \in {"n", "error"} -> {}
               [] e.k = "r" -> {<<"v", e.v, e.h>>}
               [] e.k = "i" -> RefsIn(e.l) \cup RefsIn(e.r)
               [] e.k = "c" -> {<<"f", e.f, e.h>>} \cup UNION {RefsIn(e.as[i]) : i \in 1..Len(e.as)}

(* Nothing that's defined is left over, except inside of its own definition *)
Complete == Done => \A r \in RefsIn(term) :
    LET defined == IF r[1] = "v" THEN VarOf(prog, r[2]) # None ELSE FnOf(prog, r[2]) # None
    IN defined => <<r[1], r[2]>> \in r[3]

-----------------------------------------------------------------------------
(* Emitting cases *)
RECURSIVE Text(_), Texts(_)
Text(e) == CASE e.k = "n" -> e.v
             [] e.k = "r" -> e.v
             [] e.k = "i" -> "(" \o Text(e.l) \o " " \o e.op \o " " \o Text(e.r) \o ")"
             [] e.k = "c" -> e.f \o "(" \o Texts(e.as) \o ")"
             [] OTHER -> ""
Texts(s) == IF s = <<>> THEN ""
            ELSE Text(Head(s)) \o (IF Len(s) = 1 THEN "" ELSE ", " \o Texts(Tail(s)))

RECURSIVE Names(_)
Names(s) == IF s = <<>> THEN "" ELSE Head(s) \o (IF Len(s) = 1 THEN "" ELSE ", " \o Names(Tail(s)))

VarDef(v, d) == IF d = None THEN "" ELSE v \o " := " \o Text(d)
FnDef(f, d)  == IF d = None THEN "" ELSE "fn " \o f \o "(" \o Names(d.ps) \o ") " \o Text(d.b)

Defs(p) == [v \in DOMAIN p.vars |-> VarDef(v, p.vars[v])]
FDefs(p) == [f \in DOMAIN p.fns |-> FnDef(f, p.fns[f])]

EmitCase == CSVWrite("%1$s", <<ToJson([vars |-> Defs(prog), fns |-> FDefs(prog),
                               cell |-> Text(cell),
                               want |-> Text(want),
                               ok   |-> want # Error])>>, IOEnv.CASES)
Emit == steps = 0 => EmitCase
=============================================================================
