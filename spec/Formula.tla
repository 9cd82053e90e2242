------------------------------ MODULE Formula ------------------------------
(***************************************************************************)
(* The formula language of a cell: which token sequences are formulas, how *)
(* they group and what is written to the spreadsheet for them.             *)
(*                                                                         *)
(* The grammar is given declaratively (an infix formula splits at its most *)
(* loosely binding operator outside of parentheses) which is unrelated to  *)
(* how the implementation parses (operator precedence climbing).           *)
(*                                                                         *)
(* States are token sequences, a step appends a token.  Every state is a   *)
(* case: it's either a formula, with the text it must compile to, or it's  *)
(* not a formula and must be rejected.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS
    Tokens,     \* the alphabet
    MaxLen,     \* bound on the length of a formula
    MinEmit     \* only emit cases which are at least this long

VARIABLE toks

Signs    == {"+", "-"}
InfixOps == {"^", "*", "/", "+", "-", "&", "=", "<", ">", "<=", ">=", "<>"}
Punct    == InfixOps \cup {"%", "(", ")", ","}
Ints     == {"0", "1", "2", "3", "7", "007", "42", "00", "100", "65536", "2147483648", "4294967296", "12345678901",
              "9007199254740993", "9223372036854775807"}
Floats   == {"1.5", "1.50", "2.25", "0.1", "0.5", "00.5", "100.0", "3.", "0.0001", "16777217.5", "123456789.125", "3.14159265358979", "0.000000000001"}
Numbers  == Ints \cup Floats
Texts    == {"'x'", "'y, z'", "''", "'a''b'", "'# +1) é'"}          \* ' stands for the double quote
Bools    == {"true", "false"}

\* how tightly the operators bind, as in any spreadsheet
Level(op) == CASE op \in {"=", "<", ">", "<=", ">=", "<>"} -> 1
               [] op = "&"                                 -> 2
               [] op \in {"+", "-"}                        -> 3
               [] op \in {"*", "/"}                        -> 4
               [] op = "^"                                 -> 5

\* what is written for a literal
Value(t) == CASE t = "007"   -> "7"
              [] t = "00"    -> "0"
              [] t = "1.50"  -> "1.5"
              [] t = "00.5"  -> "0.5"
              [] t = "100.0" -> "100"
              [] t = "3."    -> "3"
              [] t = "true"  -> "TRUE"
              [] t = "false" -> "FALSE"
              [] OTHER       -> t

Err == [k |-> "err"]

\* the nesting of parentheses before each of the tokens
RECURSIVE DepthAt(_, _)
DepthAt(s, i) ==
    IF i = 1 THEN 0
    ELSE DepthAt(s, i - 1) + (CASE s[i-1] = "(" -> 1 [] s[i-1] = ")" -> -1 [] OTHER -> 0)

\* does the token end an operand?  an operator is infix iff it follows one
EndsOperand(t) == t \notin (InfixOps \cup {"(", ","})

InfixAt(s, i) == /\ s[i] \in InfixOps
                 /\ i > 1
                 /\ EndsOperand(s[i-1])

Balanced(s) == /\ \A i \in 1..Len(s) : DepthAt(s, i) + (IF s[i] = ")" THEN -1 ELSE 0) >= 0
               /\ Len(s) = 0 \/ DepthAt(s, Len(s)) + (CASE s[Len(s)] = "(" -> 1 [] s[Len(s)] = ")" -> -1 [] OTHER -> 0) = 0

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

Negate(sg) == IF sg = "-" THEN "+" ELSE "-"

ApplySign(sg, n) ==
    IF n.k # "num" THEN Err
    ELSE [n EXCEPT !.sg = IF sg = "-" THEN Negate(n.sg) ELSE IF n.sg = "-" THEN "-" ELSE "+"]

ApplyPct(n) == IF n.k # "num" \/ (n.k = "num" /\ n.pct) THEN Err ELSE [n EXCEPT !.pct = TRUE]

(***************************************************************************)
(* Parse(s, assoc) is the formula which s denotes, where assoc is the side *)
(* to which operators of the same level group                              *)
(***************************************************************************)
RECURSIVE Parse(_, _), Operand(_, _), Args(_, _), ParseArg(_, _)

Parse(s, assoc) ==
    IF Len(s) = 0 \/ ~Balanced(s) THEN Err
    ELSE LET ops == {i \in 2..(Len(s)-1) : DepthAt(s, i) = 0 /\ InfixAt(s, i)} IN
         IF ops = {} THEN Operand(s, assoc)
         ELSE LET low == Min({Level(s[i]) : i \in ops})
                  at  == {i \in ops : Level(s[i]) = low}
                  i   == IF assoc = "left" THEN Max(at) ELSE Min(at)
                  l   == Parse(SubSeq(s, 1, i - 1), assoc)
                  r   == Parse(SubSeq(s, i + 1, Len(s)), assoc)
              IN IF l = Err \/ r = Err THEN Err ELSE [k |-> "infix", op |-> s[i], l |-> l, r |-> r]

\* something without any infix operators outside of parentheses
Operand(s, assoc) ==
    LET n == Len(s) IN
    CASE n = 0 -> Err
      [] n = 1 /\ s[1] \in Punct -> Err
      [] n = 1 /\ s[1] \in Numbers -> [k |-> "num", v |-> Value(s[1]), sg |-> "", pct |-> FALSE]
      [] n = 1 /\ s[1] \in Texts \cup Bools -> [k |-> "lit", v |-> Value(s[1])]
      [] n = 1 -> [k |-> "ref", v |-> s[1]]
      [] n > 1 /\ s[1] \in Signs -> ApplySign(s[1], Operand(Tail(s), assoc))
      [] n > 1 /\ s[n] = "%" -> ApplyPct(Operand(SubSeq(s, 1, n - 1), assoc))
      [] n > 1 /\ s[1] = "(" /\ s[n] = ")" /\ Balanced(SubSeq(s, 2, n - 1)) -> Parse(SubSeq(s, 2, n - 1), assoc)
      \* a call: the name can be in parentheses
      [] n > 1 /\ s[n] = ")" ->
           LET opens == {i \in 2..(n-1) : s[i] = "(" /\ Balanced(SubSeq(s, i + 1, n - 1))} IN
           IF opens = {} THEN Err
           ELSE LET o == Max(opens)
                    f == Operand(SubSeq(s, 1, o - 1), assoc)
                    a == Args(SubSeq(s, o + 1, n - 1), assoc)
                IN IF f.k # "ref" \/ a = <<Err>> THEN Err ELSE [k |-> "call", f |-> f.v, args |-> a]
      [] OTHER -> Err

ParseArg(s, assoc) == IF s = <<>> THEN [k |-> "ref", v |-> ""] ELSE Parse(s, assoc)

\* the arguments of a call, each of them can be left out
Args(s, assoc) ==
    IF s = <<>> THEN <<>>
    ELSE LET commas == {i \in 1..Len(s) : s[i] = "," /\ DepthAt(s, i) = 0} IN
         IF commas = {}
         THEN LET a == Parse(s, assoc) IN IF a = Err THEN <<Err>> ELSE <<a>>
         ELSE LET c    == Min(commas)
                  a    == ParseArg(SubSeq(s, 1, c - 1), assoc)
                  rest == SubSeq(s, c + 1, Len(s))
                  as   == IF rest = <<>> THEN <<[k |-> "ref", v |-> ""]>> ELSE Args(rest, assoc)
              IN IF a = Err \/ as = <<Err>> THEN <<Err>> ELSE <<a>> \o as

(***************************************************************************)
(* The tokens which a formula is written as: everything that grouped is    *)
(* parenthesised                                                           *)
(***************************************************************************)
RECURSIVE Written(_), WrittenArgs(_)
Written(e) ==
    CASE e.k = "num"   -> (IF e.sg = "" THEN <<>> ELSE <<e.sg>>) \o <<e.v>> \o (IF e.pct THEN <<"%">> ELSE <<>>)
      [] e.k = "lit"   -> <<e.v>>
      [] e.k = "ref"   -> IF e.v = "" THEN <<>> ELSE <<e.v>>
      [] e.k = "infix" -> <<"(">> \o Written(e.l) \o <<e.op>> \o Written(e.r) \o <<")">>
      [] e.k = "call"  -> <<e.f, "(">> \o WrittenArgs(e.args) \o <<")">>
WrittenArgs(as) ==
    IF as = <<>> THEN <<>>
    ELSE Written(Head(as)) \o (IF Len(as) = 1 THEN <<>> ELSE <<",">> \o WrittenArgs(Tail(as)))

RECURSIVE Text(_), TextArgs(_)
Text(e) ==
    CASE e.k = "num"   -> e.sg \o e.v \o (IF e.pct THEN "%" ELSE "")
      [] e.k = "lit"   -> e.v
      [] e.k = "ref"   -> e.v
      [] e.k = "infix" -> "(" \o Text(e.l) \o " " \o e.op \o " " \o Text(e.r) \o ")"
      [] e.k = "call"  -> e.f \o "(" \o TextArgs(e.args) \o ")"
TextArgs(as) ==
    IF as = <<>> THEN ""
    ELSE Text(Head(as)) \o (IF Len(as) = 1 THEN "" ELSE ", " \o TextArgs(Tail(as)))

Result == Parse(toks, "left")

Init == toks = <<>>
Next == /\ Len(toks) < MaxLen
        /\ \E t \in Tokens : toks' = Append(toks, t)
Spec == Init /\ [][Next]_toks

-----------------------------------------------------------------------------
(* Properties of the language itself *)

\* compiling what was written gives the same thing again (except that signs and literals are normal)
WrittenIsStable ==
    Result # Err => LET w == Written(Result) IN
                    LET again == Parse([i \in 1..Len(w) |-> w[i]], "left") IN
                    \/ again = Result
                    \/ \E i \in 1..Len(w) : w[i] \in {"TRUE", "FALSE"}

\* whatever is parenthesised completely means the same whichever side operators group to
GroupingIsExplicit ==
    Result # Err => Parse(Written(Result), "right") = Parse(Written(Result), "left")

\* a formula has balanced parentheses
FormulasAreBalanced == Result # Err => Balanced(toks)

Emit == Len(toks) >= MinEmit =>
    LET e == Result
        r == Parse(toks, "right")
    IN CSVWrite("%1$s", <<ToJson([t |-> toks,
                                   want |-> IF e = Err THEN "" ELSE Text(e),
                                   ok |-> e # Err,
                                   right |-> IF r = Err THEN "" ELSE Text(r)])>>, IOEnv.CASES)
=============================================================================
