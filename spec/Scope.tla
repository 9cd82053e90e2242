------------------------------- MODULE Scope -------------------------------
(***************************************************************************)
(* Which definition a name refers to in a program made of several modules. *)
(*                                                                         *)
(* A name is looked up where it was written: in the module's own           *)
(* definitions and then in the modules which it directly uses (the last    *)
(* `use` of a module defining the name wins).  A name which means nothing  *)
(* there is looked up where the definition was imported to, and so on up   *)
(* to the cell in which it's finally used.  For the cell there are, in     *)
(* this order, the cells bound with [[var=]], the main module's own        *)
(* definitions, the modules that it uses, and the key/values given on the  *)
(* command line.                                                           *)
(*                                                                         *)
(* Operationally: every name in a term has the chain of modules in which   *)
(* it's to be looked up, and one step replaces any one name by what it     *)
(* refers to.  A step can be taken anywhere in the term.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization

CONSTANTS
    MainDefs, DepDefs,  \* the names of the sets of definitions, below, that modules can have
    Graphs,             \* "few" or "all" of the import graphs
    Sample              \* how many of the programs to check, 0 for all of them

VARIABLES prog, cell, term, want

vars == <<prog, cell, term, want>>

Mods == {"main", "m1", "m2", "m3"}

-----------------------------------------------------------------------------
N(v)        == [k |-> "n", v |-> v]
R(v)        == [k |-> "r", v |-> v, ch |-> <<>>, in |-> {}]
I(l, op, r) == [k |-> "i", l |-> l, op |-> op, r |-> r]
C(f, as)    == [k |-> "c", f |-> f, as |-> as, ch |-> <<>>, in |-> {}]
None        == [k |-> "none"]
Range(s)    == {s[i] : i \in 1..Len(s)}

(***************************************************************************)
(* Definitions.  "lit" is a number which is unique to the module and name. *)
(***************************************************************************)
Lit(m, n) == N((CASE m = "main" -> "1" [] m = "m1" -> "2" [] m = "m2" -> "3" [] OTHER -> "4") \o
               (CASE n = "a" -> "1" [] n = "b" -> "2" [] n = "c" -> "3" [] n = "vf" -> "5" [] n = "fb" -> "6" [] OTHER -> "9"))

Body(m, n, d) == CASE d = "none" -> None
                   [] d = "lit"  -> Lit(m, n)
                   [] d = "b"    -> R("b")
                   [] d = "b+"   -> I(R("b"), "+", Lit(m, n))
                   [] d = "c"    -> R("c")
                   [] d = "f(c)" -> C("f", <<R("c")>>)
                   [] d = "x+b"  -> I(R("x"), "+", R("b"))
                   [] d = "x+c"  -> I(R("x"), "*", R("c"))
                   [] d = "x"    -> I(R("x"), "/", Lit(m, n))
                   [] d = "f"    -> R("f")
                   [] d = "b()"  -> C("b", <<R("b")>>)
                   [] d = "g"    -> C("g", <<R("x"), Lit(m, n)>>)

\* Variables and functions are different things which can have the same name: `vf` is the variable f and
\* `fb` is the function b
Names  == {"a", "b", "c", "f", "vf", "fb"}
VarOf(n) == IF n = "f" THEN "vf" ELSE n
FnOf(n)  == IF n = "b" THEN "fb" ELSE n

DefSets ==
  [ab    |-> [a : {"none", "lit", "b"}, b : {"none", "lit"}, c : {"none"}, f : {"none"}, vf : {"none"}, fb : {"none"}],
   b     |-> [a : {"none"}, b : {"none", "lit"}, c : {"none"}, f : {"none", "x+b"}, vf : {"none"}, fb : {"none"}],
   abf   |-> [a : {"none", "b+"}, b : {"none", "lit"}, c : {"none"}, f : {"none", "x+b"}, vf : {"none"}, fb : {"none"}],
   both  |-> [a : {"none"}, b : {"none", "lit"}, c : {"none"}, f : {"none", "x+b"}, vf : {"none", "lit"}, fb : {"none", "x"}],
   dboth |-> [a : {"none", "f", "b()"}, b : {"none", "lit"}, c : {"none"}, f : {"none", "x+b"}, vf : {"none", "lit"}, fb : {"none", "x"}],
   all   |-> [a : {"none", "lit", "b", "b+", "f(c)"}, b : {"none", "lit", "c"}, c : {"none", "lit"}, f : {"none", "x+b", "x+c", "g"}, vf : {"none"}, fb : {"none"}],
   mall  |-> [a : {"none", "b", "lit"}, b : {"none", "lit", "c"}, c : {"none", "lit"}, f : {"none", "x+b"}, vf : {"none"}, fb : {"none"}]]

UsesOfMain == {<<>>} \cup {<<i>> : i \in {"m1", "m2", "m3"}} \cup {s \in [1..2 -> {"m1", "m2", "m3"}] : s[1] # s[2]}
              \cup {s \in [1..3 -> {"m1", "m2", "m3"}] : Cardinality(Range(s)) = 3}
              \cup {<<"m1", "m2", "m1">>}
UsesOfM1 == {<<>>, <<"m2">>, <<"m3">>, <<"m2", "m3">>, <<"m3", "m2">>}
UsesOfM2 == {<<>>, <<"m3">>}

AllGraphs == {[main |-> u, m1 |-> u1, m2 |-> u2, m3 |-> <<>>] : u \in UsesOfMain, u1 \in UsesOfM1, u2 \in UsesOfM2}
FewGraphs == {[main |-> u, m1 |-> u1, m2 |-> u2, m3 |-> <<>>] :
                u \in {<<"m1">>, <<"m1", "m2">>, <<"m2", "m1">>, <<"m3", "m1", "m2">>, <<"m1", "m2", "m3">>, <<"m1", "m2", "m1">>},
                u1 \in UsesOfM1, u2 \in UsesOfM2}

GraphSet == IF Graphs = "all" THEN AllGraphs ELSE FewGraphs

Programs == [uses : GraphSet,
             defs : [main : DefSets[MainDefs], m1 : DefSets[DepDefs], m2 : DefSets[DepDefs], m3 : DefSets[DepDefs]],
             cellvar : {"", "b"},      \* is there a cell with [[var=b]]?
             kv : {"", "b"}]           \* is there a -k b=77?

\* sampling each of the components keeps TLC from enumerating all of the programs
Some(n, S) == IF Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)

Cells == {R("a"), R("b"), I(R("a"), "-", C("f", <<R("b")>>)), C("f", <<C("f", <<R("a")>>)>>), R("z"), R("f"), C("b", <<R("f")>>)}

-----------------------------------------------------------------------------
(* Looking up *)

Own(p, m, n) == IF n \in Names THEN Body(m, n, p.defs[m][n]) ELSE None

\* the definition of `n` which is visible in `m`, as the module it's defined in
Definer(p, m, n) ==
    IF Own(p, m, n) # None THEN m
    ELSE LET us == p.uses[m]
             ds == {i \in 1..Len(us) : Own(p, us[i], n) # None}
         IN IF ds = {} THEN "" ELSE us[CHOOSE i \in ds : \A j \in ds : j <= i]

\* what `n` refers to, if it's looked up in the modules of the chain: the module defining it, and the
\* chain that its body is to be looked up in
RECURSIVE Lookup(_, _, _)
Lookup(p, ch, n) ==
    IF ch = <<>> THEN [m |-> "", ch |-> <<>>]
    ELSE LET m == Head(ch)
             d == Definer(p, m, n)
         IN IF d = m THEN [m |-> d, ch |-> ch]
            ELSE IF d # "" THEN [m |-> d, ch |-> <<d>> \o ch]
            ELSE IF m = "main" /\ n = p.cellvar THEN [m |-> "cell", ch |-> <<>>]
            ELSE IF m = "main" /\ n = p.kv THEN [m |-> "kv", ch |-> <<>>]
            ELSE Lookup(p, Tail(ch), n)

\* the body of a definition
RECURSIVE Instance(_, _, _, _)
Instance(b, ch, in, arg) ==
    CASE b.k = "n" -> b
      [] b.k = "r" -> IF b.v = "x" /\ arg # None THEN arg ELSE [b EXCEPT !.ch = ch, !.in = in]
      [] b.k = "i" -> [b EXCEPT !.l = Instance(b.l, ch, in, arg), !.r = Instance(b.r, ch, in, arg)]
      [] b.k = "c" -> [b EXCEPT !.ch = ch, !.in = in, !.as = [i \in 1..Len(b.as) |-> Instance(b.as[i], ch, in, arg)]]

\* `in` is what we're inside of, which isn't expanded again
Target(p, n, ch, in) ==
    LET l == Lookup(p, ch, n) IN
    IF l.m = "" \/ <<l.m, n>> \in in THEN [m |-> "", ch |-> <<>>] ELSE l

RECURSIVE Steps(_, _)
Steps(p, e) ==
    CASE e.k = "n" -> {}
      [] e.k = "r" ->
            LET n == VarOf(e.v)
                t == Target(p, n, e.ch, e.in) IN
            CASE t.m = "" -> {}
              [] t.m = "cell" -> {N("A1")}
              [] t.m = "kv"   -> {N("77")}
              [] OTHER -> {Instance(Own(p, t.m, n), t.ch, e.in \cup {<<t.m, n>>}, None)}
      [] e.k = "i" -> {[e EXCEPT !.l = l] : l \in Steps(p, e.l)} \cup {[e EXCEPT !.r = r] : r \in Steps(p, e.r)}
      [] e.k = "c" ->
            LET inside == UNION {{[e EXCEPT !.as[i] = a] : a \in Steps(p, e.as[i])} : i \in 1..Len(e.as)}
                n == FnOf(e.f)
                t == Target(p, n, e.ch, e.in)
            IN IF inside # {} THEN inside
               ELSE IF t.m \in {"", "cell", "kv"} THEN {}
               ELSE {Instance(Own(p, t.m, n), t.ch, e.in \cup {<<t.m, n>>}, e.as[1])}

RECURSIVE Text(_), Texts(_)
Text(e) == CASE e.k \in {"n", "r"} -> e.v
             [] e.k = "i" -> "(" \o Text(e.l) \o " " \o e.op \o " " \o Text(e.r) \o ")"
             [] e.k = "c" -> e.f \o "(" \o Texts(e.as) \o ")"
             [] OTHER -> ""
Texts(s) == IF s = <<>> THEN ""
            ELSE Text(Head(s)) \o (IF Len(s) = 1 THEN "" ELSE ", " \o Texts(Tail(s)))

\* some order of doing it
RECURSIVE Finish(_, _)
Finish(p, e) == LET s == Steps(p, e) IN IF s = {} THEN e ELSE Finish(p, CHOOSE t \in s : TRUE)

\* is any name left over which was only left because we're inside of it?
RECURSIVE Cyclic(_, _)
Cyclic(p, e) ==
    CASE e.k = "n" -> FALSE
      [] e.k = "r" -> Lookup(p, e.ch, VarOf(e.v)).m # ""
      [] e.k = "i" -> Cyclic(p, e.l) \/ Cyclic(p, e.r)
      [] e.k = "c" -> Lookup(p, e.ch, FnOf(e.f)).m # "" \/ \E i \in 1..Len(e.as) : Cyclic(p, e.as[i])

-----------------------------------------------------------------------------
Choose == IF Sample = 0 THEN Programs
          ELSE [uses : GraphSet, defs : [main : Some(Sample, DefSets[MainDefs]), m1 : Some(Sample, DefSets[DepDefs]),
                                         m2 : Some(Sample, DefSets[DepDefs]), m3 : Some(Sample, DefSets[DepDefs])],
                cellvar : {"", "b"}, kv : {"", "b"}]

Init == /\ prog \in Choose
        /\ prog.cellvar = "" \/ prog.kv = "" \/ prog.uses.main = <<"m1", "m2">>
        /\ cell \in Cells
        /\ term = Instance(cell, <<"main">>, {}, None)
        /\ want = Finish(prog, term)

Next == /\ \E t \in Steps(prog, term) : term' = t
        /\ UNCHANGED <<prog, cell, want>>

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* It doesn't matter in which order names are resolved *)
Confluent == Steps(prog, term) = {} => term = want

(* Nothing which isn't reachable through `use` can be referred to *)
RECURSIVE Reach(_, _)
Reach(p, S) == LET T == S \cup UNION {Range(p.uses[m]) : m \in S} IN IF T = S THEN S ELSE Reach(p, T)

RECURSIVE Lits(_)
Lits(e) == CASE e.k = "n" -> {e.v}
             [] e.k = "r" -> {}
             [] e.k = "i" -> Lits(e.l) \cup Lits(e.r)
             [] e.k = "c" -> UNION {Lits(e.as[i]) : i \in 1..Len(e.as)}

Reachable == Lits(term) \subseteq {"A1", "77"} \cup {Lit(m, n).v : m \in Reach(prog, {"main"}), n \in Names}

(* What the main module defines hides everything that is imported *)
MainWins == \A n \in {"a", "b", "c"} :
    (cell = R(n) /\ prog.defs.main[n] = "lit") => want = Lit("main", n)

-----------------------------------------------------------------------------
Source(m) ==
    LET d == prog.defs[m]
        var(n, v) == IF d[n] = "none" THEN <<>> ELSE <<v \o " := " \o Text(Body(m, n, d[n]))>>
        fun(n, f) == IF d[n] = "none" THEN <<>> ELSE <<"fn " \o f \o "(x) " \o Text(Body(m, n, d[n]))>>
    IN [uses |-> prog.uses[m],
        defs |-> var("a", "a") \o var("b", "b") \o var("c", "c") \o fun("f", "f") \o var("vf", "f") \o fun("fb", "b")]

Emit == (term = Instance(cell, <<"main">>, {}, None)) =>
    CSVWrite("%1$s", <<ToJson([mods |-> [m \in Mods |-> Source(m)],
                               cellvar |-> prog.cellvar, kv |-> prog.kv,
                               cell |-> Text(cell), want |-> Text(want), cyclic |-> Cyclic(prog, want)])>>, IOEnv.CASES)
=============================================================================
