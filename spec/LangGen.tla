------------------------------- MODULE LangGen -------------------------------
(* Larger programs, for random simulation: four variables and four functions *)
(* (some names are both) whose bodies are random formulas.                   *)
EXTENDS Lang
VARIABLE todo      \* what is left to be defined

gvars == <<prog, cell, term, steps, want, todo>>

Names0 == {"a", "b", "c", "d", "x", "y", "A1", "f"}
E0 == {N("1"), N("2.5")} \cup {R(n) : n \in Names0}
Fs == [f |-> 1, g |-> 2, a |-> 1, h |-> 0, SUM |-> 2]

\* an argument list; sometimes with the wrong number of arguments
Args0 == [f |-> {<<e>> : e \in E0}, g |-> {<<d, e>> : d, e \in E0}, a |-> {<<e>> : e \in E0}, h |-> {<<>>},
          SUM |-> {<<d, e>> : d \in E0, e \in {R("a"), R("x")}}]

\* random formulas: TLC picks from these sets anew in every state
Leaf(i) == RandomElement(E0)
Calls0 == UNION {{C(f, as) : as \in Args0[f]} : f \in DOMAIN Fs}
Call0(i) == RandomElement(Calls0)
Infix0(i) == I(Leaf(0), RandomElement({"+", "-", "*"}), Leaf(0))
E1(i) == CASE i \in 1..3 -> Leaf(0) [] i \in 4..6 -> Call0(0) [] OTHER -> Infix0(0)
Deep(i) == CASE i \in 1..4 -> E1(RandomElement(1..8))
             [] i = 5 -> C("f", <<E1(RandomElement(1..8))>>)
             [] i = 6 -> C("g", <<E1(RandomElement(1..8)), E1(RandomElement(1..8))>>)
             [] i = 7 -> C("a", <<E1(RandomElement(4..8))>>)
             [] i = 8 -> I(E1(RandomElement(1..8)), "+", E1(RandomElement(1..8)))
             [] OTHER -> C("IF", <<E1(RandomElement(1..8)), Leaf(0)>>)
Params(f) == CASE f = "f" -> {<<"x">>, <<"a">>, <<"b">>} [] f = "g" -> {<<"x", "y">>, <<"y", "x">>, <<"a", "x">>, <<"f", "c">>}
               [] f = "a" -> {<<"x">>, <<"a">>} [] OTHER -> {<<>>}

GInit == /\ prog = [vars |-> <<>>, fns |-> <<>>]
         /\ todo = <<"a", "b", "c", "d", "f", "g", "a", "h", "cell">>
         /\ cell = None /\ term = None /\ steps = 0 /\ want = None

Define == /\ todo # <<>>
          /\ \E i \in 1..9 : \E e \in {Deep(i)} :
               LET n == Head(todo)
               IN CASE Len(todo) >= 6 ->
                          /\ prog' = [prog EXCEPT !.vars = @ @@ (n :> (IF i = 9 /\ n = "d" THEN None ELSE e))]
                          /\ UNCHANGED <<cell, term, want>>
                    [] Len(todo) \in 2..5 ->
                          /\ prog' = [prog EXCEPT !.fns = @ @@ (n :> (IF i = 9 /\ n = "h" THEN None ELSE Fn(RandomElement(Params(n)), e)))]
                          /\ UNCHANGED <<cell, term, want>>
                    [] OTHER ->
                          /\ cell' = e /\ term' = e /\ want' = Meaning(prog, e)
                          /\ UNCHANGED prog
          /\ todo' = Tail(todo)
          /\ UNCHANGED steps

Rewrite == todo = <<>> /\ steps < 60 /\ Next /\ UNCHANGED todo

GNext == Define \/ Rewrite
GSpec == GInit /\ [][GNext]_gvars

Ready == todo = <<>>
GConfluent == Ready /\ steps < 60 => Confluent
GMeaning   == Ready => MeaningIsPreserved
GComplete  == Ready => Complete
GEmit      == Ready => Emit
=============================================================================
