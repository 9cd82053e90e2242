----------------------------- MODULE FormulaGen -----------------------------
(* Longer formulas, for random simulation: tokens are appended such that    *)
(* the sequence can still become a formula, except for at most one mistake. *)
EXTENDS Formula
CONSTANT GenLen
VARIABLES opened,   \* the open parentheses: "(" or "f" for the arguments of a call
          bad,      \* was there a mistake?
          done

vars == <<toks, opened, bad, done>>

Last == IF toks = <<>> THEN "(" ELSE toks[Len(toks)]
NeedsOperand == toks = <<>> \/ ~EndsOperand(Last)

Operands == {"a", "b", "A1", "$B$2", "A1:B3", "A:$C", "Sheet1!A1", "STDEV.S", "_x", "é", "true1", "falsey", "usex", "fnx"}
            \cup Ints \cup Floats \cup Texts \cup Bools
Names == {"f", "IF", "STDEV.S", "a"}

GInit == toks = <<>> /\ opened = <<>> /\ bad = FALSE /\ done = FALSE

Push(ts) == toks' = toks \o ts /\ UNCHANGED <<bad, done>>

Grow == /\ ~done
        /\ Len(toks) < GenLen
        /\ \/ /\ NeedsOperand
              /\ \/ \E t \in Operands : Push(<<t>>) /\ UNCHANGED opened
                 \/ \E f \in Names : Push(<<f, "(">>) /\ opened' = Append(opened, "f")
                 \/ \E n \in 1..3 : Push(<<"(">>) /\ opened' = Append(opened, "(")
                 \/ \E s \in Signs, n \in {"1", "2.25"} : Push(<<s, n>>) /\ UNCHANGED opened
           \/ /\ ~NeedsOperand
              /\ \/ \E o \in InfixOps : Push(<<o>>) /\ UNCHANGED opened
                 \/ Last \in Numbers /\ Push(<<"%">>) /\ UNCHANGED opened

Separate == /\ ~done /\ opened # <<>> /\ opened[Len(opened)] = "f"
            /\ ~NeedsOperand \/ Last \in {"(", ","}
            /\ Push(<<",">>) /\ UNCHANGED opened

Close == /\ ~done /\ opened # <<>>
         /\ ~NeedsOperand \/ (opened[Len(opened)] = "f" /\ Last \in {"(", ","})
         /\ Push(<<")">>)
         /\ opened' = SubSeq(opened, 1, Len(opened) - 1)

Mistake == /\ ~done /\ ~bad /\ Len(toks) > 2
           /\ \E t \in {"1", "a", ")", "(", "*", "%", ",", "+"} : toks' = Append(toks, t)
           /\ bad' = TRUE
           /\ UNCHANGED <<opened, done>>

Finish == /\ ~done /\ toks # <<>>
          /\ opened = <<>> \/ bad
          /\ ~NeedsOperand \/ bad
          /\ Len(toks) > 5
          /\ done' = TRUE
          /\ UNCHANGED <<toks, opened, bad>>

GNext == Grow \/ Separate \/ Close \/ Mistake \/ Finish
GSpec == GInit /\ [][GNext]_vars

GEmit == done => Emit
=============================================================================
