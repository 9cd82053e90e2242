------------------------------- MODULE Values -------------------------------
(* A module which is compiled to several targets.  Every cell has a value    *)
(* (nothing, a text, a number, a boolean or a formula), however it was       *)
(* written: directly, by way of variables, functions, key/values or imported *)
(* definitions.  The spec builds a module cell by cell, each of which from   *)
(* the inside to the outside, and says what each of the targets must contain *)
(* for it.                                                                   *)
(*                                                                           *)
(* Texts are sequences of tokens, those in capitals are not what they stand  *)
(* for (checks/c14.py spells them).                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json, CSV
CONSTANTS MaxTokens,        \* of texts
          Wraps,            \* the ways in which a formula can be given
          MaxWraps,
          MaxRows, MaxCells,
          MinRows,          \* emitted
          Random,           \* choose the contents of cells randomly instead of trying all of them
          Bad               \* can there be cells which are wrong?
VARIABLES rows,     \* the rows that are finished
          row,      \* the cells of the current row
          cell,     \* the cell which is being built
          wraps,    \* how often it was wrapped
          env,      \* the definitions
          done
vars == <<rows, row, cell, wraps, env, done>>

---------------------------------------------------------------------------
TextTokens == {"a", "E1", "EMOJI", "&", "<", ">", "'", "DQ", "NL", " ", "TAB", ",", ";", "#", "=", "+", "-", "@", "1", ".5",
               "true", "TRUE", "_x0041_", "A1", "%", "{", "$", "]", "NBSP", "CTRL"}
Space == {" ", "NL", "TAB", "NBSP"}

Type(v) == v[1]
Contents(v) == v[2]
Nothing == <<"nothing", <<>>>>

(* written as, and the value this is *)
Literals == {<<n, <<"number", <<n>>>>>> : n \in {"0", "1", "42", "1.5", "0.0001", "2.25", "65536", "2147483648", "12345678901", "3.14159265358979", "0.000000000001"}}
  \cup {<<"007", <<"number", <<"7">>>>>>, <<"1.50", <<"number", <<"1.5">>>>>>, <<"3.", <<"number", <<"3">>>>>>}
  \cup {<<"true", <<"bool", <<"TRUE">>>>>>, <<"false", <<"bool", <<"FALSE">>>>>>}
  \cup {<<f, <<"formula", <<f>>>>>> : f \in {"-1", "1%", "-1.5%", "+2", "-1.5", "+0.5", "1.5%", "-2%", "-0.25", "A1", "A1:B2", "$A$1", "Sheet!A1", "A:A", "e1", "TRUE", "Name",
            "f(1)", "f()", "f(A1, , 2)", "IF(TRUE, 1, A1:A2)", "(1 + 2)", "((1 * 2) + A1)", "(A1 <> 1)", "(A1 & B1)", "f((1 + 2), g(true1))"}}
  \cup {<<"1+2", <<"formula", <<"(1 + 2)">>>>>>, <<"f( 1,A1 )", <<"formula", <<"f(1, A1)">>>>>>, <<"--1", <<"formula", <<"+1">>>>>>,
        <<"f(true)", <<"formula", <<"f(TRUE)">>>>>>, <<"1*(2+A1)", <<"formula", <<"(1 * (2 + A1))">>>>>>}

Texts == UNION {[1..n -> TextTokens] : n \in 0..MaxTokens}
(* a cell's text is without surrounding space, and isn't a formula *)
PlainTexts == {t \in Texts \ {<<>>} : t[1] \notin Space \cup {"="} /\ t[Len(t)] \notin Space}

Wrong == {"=id(1, 2)", "=)", "=1 +", "[[foo]]x", "=c_none(", "[[b=x]]y"}

---------------------------------------------------------------------------
(* Expressions, as they're written *)
Lit(w, v) == [k |-> "lit", w |-> w, v |-> v]
Paren(e) == [k |-> "paren", e |-> e]
Ident(e) == [k |-> "id", e |-> e]
Second(e) == [k |-> "second", e |-> e]
Name(i) == [k |-> "name", i |-> i]

RECURSIVE Denotes(_, _)
Denotes(e, defs) == CASE e.k = "lit" -> e.v
                      [] e.k = "name" -> Denotes(defs[e.i].e, defs)
                      [] OTHER -> Denotes(e.e, defs)

RECURSIVE Local(_, _)
Local(e, defs) == CASE e.k = "lit" -> FALSE
                    [] e.k = "name" -> defs[e.i].how # "import"
                    [] OTHER -> Local(e.e, defs)

Empty == [kind |-> "nothing"]
Plain(t) == [kind |-> "text", t |-> t]
Formula(e) == [kind |-> "formula", e |-> e]
Mistake(t) == [kind |-> "wrong", t |-> t]

ValueOf(c, defs) == CASE c.kind = "nothing" -> Nothing
                      [] c.kind = "text" -> <<"text", c.t>>
                      [] c.kind = "formula" -> Denotes(c.e, defs)

---------------------------------------------------------------------------
(* What the targets contain for a value *)
InCsv(v) == CASE Type(v) = "nothing" -> <<>>
              [] Type(v) = "text" -> Contents(v)
              [] OTHER -> <<"=">> \o Contents(v)
(* a text which was given as a formula is one in CSV, where there's nothing else to tell that it's not a number *)
InCsvOf(c, defs) == LET v == ValueOf(c, defs) IN
  IF c.kind = "formula" /\ Type(v) = "text" THEN <<"=", "DQ">> \o Contents(v) \o <<"DQ">> ELSE InCsv(v)

InXlsx(v) == v
InSheets(v) == LET t == CASE Type(v) = "nothing" -> "none"
                          [] Type(v) = "text" -> "stringValue"
                          [] Type(v) = "number" -> "numberValue"
                          [] Type(v) = "bool" -> "boolValue"
                          [] Type(v) = "formula" -> "formulaValue"
               IN <<t, IF Type(v) = "formula" THEN <<"=">> \o Contents(v) ELSE Contents(v)>>

(* and the other way round, what the contents mean *)
FromSheets(x) == LET t == CASE x[1] = "none" -> "nothing"
                            [] x[1] = "stringValue" -> "text"
                            [] x[1] = "numberValue" -> "number"
                            [] x[1] = "boolValue" -> "bool"
                            [] x[1] = "formulaValue" -> "formula"
                 IN <<t, IF x[1] = "formulaValue" THEN Tail(x[2]) ELSE x[2]>>

---------------------------------------------------------------------------
Pick(S) == RandomElement(IF Len(rows) < 0 THEN {} ELSE S)
NoCell == [kind |-> "none"]

Init == rows = <<>> /\ row = <<>> /\ cell = NoCell /\ wraps = 0 /\ env = <<>> /\ done = FALSE

Some(S) == IF Random THEN {Pick(S)} ELSE S

Start == /\ ~done /\ cell = NoCell /\ Len(row) < MaxCells /\ Len(rows) < MaxRows
         /\ \/ \E t \in Some(PlainTexts) : cell' = Plain(t)
            \/ \E l \in Some(Literals) : cell' = Formula(Lit(l[1], l[2]))
            \/ \E t \in Some(Texts) : cell' = Formula(Lit("TEXT", <<"text", t>>))
            \/ cell' = Empty
            \/ Bad /\ \E w \in Some(Wrong) : cell' = Mistake(w)
         /\ wraps' = 0
         /\ UNCHANGED <<rows, row, env, done>>

Define(how) == /\ env' = Append(env, [how |-> how, e |-> cell.e])
               /\ cell' = Formula(Name(Len(env) + 1))

Wrap == /\ ~done /\ cell.kind = "formula" /\ wraps < MaxWraps
        /\ wraps' = wraps + 1
        /\ \E how \in Wraps :
             \/ how = "paren" /\ cell' = Formula(Paren(cell.e)) /\ UNCHANGED env
             \/ how = "id" /\ cell' = Formula(Ident(cell.e)) /\ UNCHANGED env
             \/ how = "second" /\ cell' = Formula(Second(cell.e)) /\ UNCHANGED env
             \/ how \in {"var", "const"} /\ Define(how)
             \/ how = "import" /\ ~Local(cell.e, env) /\ Define(how)
             \* there can't be line breaks in those of the command line
             \/ how = "kv" /\ wraps = 0 /\ Define(how)
        /\ UNCHANGED <<rows, row, done>>

PutCell == /\ ~done /\ cell # NoCell
           /\ row' = Append(row, cell) /\ cell' = NoCell
           /\ UNCHANGED <<rows, wraps, env, done>>

EndRow == /\ ~done /\ cell = NoCell /\ row # <<>>
          \* a row with nothing at all in it would be a blank line
          /\ Len(row) > 1 \/ row[1] # Empty
          /\ \E n \in (IF MaxRows = 1 THEN {1} ELSE {1, 2, 3}) :
                rows' = Append(rows, [fill |-> n, cells |-> row])
          /\ row' = <<>>
          /\ UNCHANGED <<cell, wraps, env, done>>

Finish == /\ ~done /\ cell = NoCell /\ row = <<>> /\ Len(rows) >= MinRows
          /\ done' = TRUE
          /\ UNCHANGED <<rows, row, cell, wraps, env>>

Next == Start \/ Wrap \/ PutCell \/ EndRow \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* However a formula is wrapped, its value is that of what is inside of it *)
WrappingKeepsValues == [][(cell.kind = "formula" /\ cell'.kind = "formula") => ValueOf(cell', env') = ValueOf(cell, env)]_vars

ValuesAreKept == cell.kind \notin {"none", "wrong"} => FromSheets(InSheets(ValueOf(cell, env))) = ValueOf(cell, env)

IsWrong == \E r \in 1..Len(rows) : \E c \in 1..Len(rows[r].cells) : rows[r].cells[c].kind = "wrong"

RECURSIVE Repeated(_, _)
Repeated(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Repeated(x, n - 1)
RECURSIVE Expanded(_)
Expanded(rs) == IF rs = <<>> THEN <<>> ELSE Repeated(Head(rs).cells, Head(rs).fill) \o Expanded(Tail(rs))

Emit == done => CSVWrite("%1$s", <<ToJson([
    rows |-> rows, env |-> env, ok |-> ~IsWrong,
    want |-> IF IsWrong THEN <<>> ELSE
        LET x == Expanded(rows) IN
        [r \in 1..Len(x) |-> [c \in 1..Len(x[r]) |->
            [csv |-> InCsvOf(x[r][c], env), xlsx |-> InXlsx(ValueOf(x[r][c], env)), gs |-> InSheets(ValueOf(x[r][c], env))]]]])>>, IOEnv.CASES)
=============================================================================
