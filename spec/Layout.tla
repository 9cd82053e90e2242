------------------------------- MODULE Layout -------------------------------
(* The layout of a module is of no significance: comments, line breaks and   *)
(* whitespace between the tokens of the code section and of formulas and     *)
(* options, whitespace around cells, continued lines, comments and blank     *)
(* lines, whether a cell is in quotes, and the kind of line ends.            *)
(*                                                                           *)
(* A module is a sequence of tokens with joints in between.  It's written    *)
(* from its start to its end, with some layout at each of the joints, and it *)
(* has to be compiled to the same cells whatever this layout is.             *)
(*                                                                           *)
(* In texts ~ is a line break, @ a double quote, ` an é and | a tab.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json, CSV
CONSTANTS Used,             \* the modules
          MaxChanges,       \* this many joints don't have the first layout
          MinChanges,       \* emitted
          Random            \* any number of joints have a random layout
VARIABLES which, pos, text, quoted, changes, chosen
vars == <<which, pos, text, quoted, changes, chosen>>

---------------------------------------------------------------------------
(* The layouts which there can be at each kind of joint; the first one is *)
(* how the module looks like without any.                                 *)
Layouts(j) ==
  CASE j = "free"  -> <<"", " ", "|", "  ", "~", "~~ ~", " # c~", "#~", "# a := @ ]] )~ ">>           \* between tokens of code
    [] j = "apart" -> <<" ", "|", "  ", "~", "~|~", " # c~", "#~", "| # @'~~#x~">>                    \* between words of code
    [] j = "keyword" -> <<" ", "|", "  ", "~", "~|~", " # c~", "~#~", "| # @'~~#x~">>                 \* after fn and use
    [] j = "item"  -> <<"~", " ", "~~~", "|~ ", " # c~", "~# @~~", "#`~">>                            \* between definitions
    [] j = "first" -> <<"", "~", " ", "# c~", "~~#` @~|">>                                            \* before the first of them
    [] j = "sep"   -> <<"---~", "  ---~", "---  ~", "| ---| ~">>                                      \* after the last of them
    [] j = "line"  -> <<"", "# c~", "#~", "# @ a, [[ `~", "#x~#y~">>                                  \* before a row
    [] j = "start" -> <<"", "~", "# c~", "~~", "~~#x~#y~">>                                           \* before the first row
    [] j = "around" -> <<"", " ", "  |", "\\~", " \\~ ", "\\~ \\~">>                                   \* before and after a cell
    [] j = "last"   -> <<"", " ", "  |">>                                                             \* after the last cell
    [] j = "inside" -> IF quoted THEN <<"", " ", "~", " ~|">> ELSE <<"", " ", "|">>                   \* and inside of its quotes
    \* between tokens of a formula; there can't be commas in it without quotes
    [] j = "formula" -> IF quoted THEN <<"", " ", "~", " |~ ", " # c~", "#~~">> ELSE <<"", " ", "|", "\\~">>
    [] j = "option" -> IF quoted THEN <<"", " ", "~">> ELSE <<"", " ", "\\~">>
    [] j = "between" -> IF quoted THEN <<" ", "/", " / ", "~", "  ">> ELSE <<" ", "/", "|", " / ", "  ">>
    [] j = "eol"    -> <<"~">>
    [] j = "end"    -> <<"~", "">>                                                                    \* after the last row

T(s) == <<"t", s>>
J(k) == <<"j", k>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* tokens with joints of the same kind in between *)
RECURSIVE Joined(_, _)
Joined(toks, k) == IF Len(toks) = 1 THEN <<T(toks[1])>> ELSE <<T(toks[1]), J(k)>> \o Joined(Tail(toks), k)

\* words need at least something between them
RECURSIVE Words(_)
Words(ws) == IF Len(ws) = 1 THEN Joined(ws[1], "free") ELSE Joined(ws[1], "free") \o <<J("apart")>> \o Words(Tail(ws))

(* A cell: can it be without quotes, must it be?  What's inside of it, in which @ is doubled if it's quoted. *)
Open(can) == <<"open", can>>
Close == <<"close">>
Field(can, inner) == <<J("around"), Open(can), J("inside")>> \o inner \o <<J("inside"), Close, J("around")>>
BlankField == <<J("around")>>
FormulaField(can, toks) == Field(can, Joined(<<"=">> \o toks, "formula"))
Options(opening, os) ==
  LET RECURSIVE Of(_)
      Of(rest) == Joined(Head(rest), "option") \o (IF Len(rest) = 1 THEN <<>> ELSE <<J("between")>> \o Of(Tail(rest)))
  IN <<T(opening), J("option")>> \o Of(os) \o <<J("option"), T("]]")>>
Comma == <<T(",")>>

RECURSIVE Row(_)
Row(fields) == IF Len(fields) = 1 THEN fields[1] ELSE fields[1] \o Comma \o Row(Tail(fields))
RECURSIVE Rest(_)
Rest(rows) == IF rows = <<>> THEN <<>> ELSE <<J("eol"), J("line")>> \o Row(Head(rows)) \o Rest(Tail(rows))
\* there's nothing a last line could be continued with
Cells(rows) == LET c == <<J("start")>> \o Row(Head(rows)) \o Rest(Tail(rows)) IN SubSeq(c, 1, Len(c) - 1) \o <<J("last"), J("end")>>

RECURSIVE Items(_)
Items(is) == IF Len(is) = 1 THEN is[1] ELSE is[1] \o <<J("item")>> \o Items(Tail(is))
Code(is) == <<J("first")>> \o Items(is) \o <<T("~"), J("sep")>>

(* The definitions *)
DefA == Words(<<<<"a">>, <<":=", "1", "+", "2">>>>)         \* a: would be a range
DefF == <<T("fn"), J("keyword")>> \o Words(<<<<"f", "(", "x", ",", "y", ")", "x", "*", "(", "y", "-", "a", ")">>>>)
DefT == Words(<<<<"t">>, <<":=", "@p # q~ r@", "&", "@@">>>>)
DefG == <<T("fn"), J("keyword")>> \o Words(<<<<"g`", "(", ")", "f", "(", "A1", ",", ",", "true", ")">>>>)
DefH == <<T("fn"), J("keyword")>> \o Words(<<<<"h", "(", ")", "dep_v", "+", "-", "1", "%", "<>", "B2">>>>)
Use == <<T("use"), J("keyword"), T("dep")>>

(* The modules, and the cells which they are compiled to (or nothing if there's a mistake in them) *)
Modules == [
  code |-> [
    m |-> Code(<<DefA, DefF, DefT>>) \o Cells(<<<<FormulaField(FALSE, <<"f", "(", "1", ",", "t", ")">>), FormulaField(TRUE, <<"a">>)>>>>),
    want |-> <<<<"=(1 * ((@p # q~ r@ & @@) - (1 + 2)))", "=(1 + 2)">>>>],
  uses |-> [
    m |-> Code(<<Use, DefH>>) \o Cells(<<<<FormulaField(TRUE, <<"h", "(", ")">>), FormulaField(TRUE, <<"dep_v", "^", "2">>)>>>>),
    want |-> <<<<"=((5 + -1%) <> B2)", "=(5 ^ 2)">>>>],
  cells |-> [
    m |-> Cells(<<<<Field(TRUE, <<T("x y")>>), BlankField, Field(FALSE, <<T("`, @z@")>>)>>,
                  <<Field(TRUE, <<T("'")>>), Field(TRUE, <<T("p=q")>>)>>,
                  <<FormulaField(TRUE, <<"1", "+", "foo", "(", "A1", ")", "*", "2">>), FormulaField(FALSE, <<"IF", "(", "true", ",", "@, @", ",", "-", "1", ")">>)>>>>),
    want |-> <<<<"x y", "", "`, @z@">>, <<"'", "p=q">>, <<"=(1 + (foo(A1) * 2))", "=IF(TRUE, @, @, -1)">>>>],
  options |-> [
    m |-> Cells(<<<<Field(TRUE, Options("![[", <<<<"b", "=", "l">>, <<"text", "=", "bold">>>>) \o <<J("option")>>
                                \o Options("[[", <<<<"n", "=", "'it is'">>, <<"color", "=", "#a1b2c3">>, <<"l">>>>) \o <<J("inside"), T("x")>>),
                    Field(TRUE, Options("[[", <<<<"var", "=", "v">>>>))>>,
                  <<Field(TRUE, Options("[[", <<<<"dv", "=", "num_eq(1)">>, <<"fs", "=", "12">>>>) \o <<J("inside")>> \o Joined(<<"=", "v", "+", "1">>, "formula")), BlankField, Field(TRUE, <<T("z")>>)>>>>),
    want |-> <<<<"x", "">>, <<"=(B1 + 1)", "", "z">>>>],
  fills |-> [
    m |-> Code(<<DefA>>) \o Cells(<<<<Field(TRUE, Options("![[", <<<<"fill", "=", "2">>>>) \o <<J("inside")>> \o Joined(<<"=", "w", "*", "a">>, "formula")),
                     Field(TRUE, Options("[[", <<<<"var", "=", "w">>>>) \o <<J("inside"), T("z")>>)>>,
                  <<Field(TRUE, <<T("`")>>)>>>>),
    want |-> <<<<"=(B1 * (1 + 2))", "z">>, <<"=(B2 * (1 + 2))", "z">>, <<"`">>>>],
  lastblank |-> [
    m |-> Code(<<DefA>>) \o Cells(<<<<Field(TRUE, <<T("x")>>)>>, <<Field(TRUE, <<T("`")>>), BlankField, BlankField>>>>),
    want |-> <<<<"x">>, <<"`", "", "">>>>],
  badcode |-> [
    m |-> Code(<<DefA, <<T("fn"), J("keyword")>> \o Words(<<<<"f", "(", "x", ")", ")">>>>)>>) \o Cells(<<<<Field(TRUE, <<T("x")>>)>>>>),
    want |-> <<>>],
  badcell |-> [
    m |-> Code(<<DefF>>) \o Cells(<<<<Field(TRUE, <<T("x")>>), FormulaField(TRUE, <<"f", "(", "1", ")">>)>>>>),
    want |-> <<>>],
  badoption |-> [
    m |-> Cells(<<<<Field(TRUE, <<T("x")>>)>>, <<Field(TRUE, Options("[[", <<<<"b", "=", "l">>, <<"foo", "=", "1">>>>) \o <<J("inside"), T("x")>>)>>>>),
    want |-> <<>>]]

Module == Modules[which].m
AtEnd == pos > Len(Module)
Item == Module[pos]

---------------------------------------------------------------------------
Pick(S) == RandomElement(IF pos < 0 THEN {} ELSE S)

RECURSIVE Doubled(_)
Doubled(s) == IF s = "" THEN "" ELSE LET c == SubSeq(s, 1, 1) IN (IF c = "@" THEN "@@" ELSE c) \o Doubled(SubSeq(s, 2, Len(s)))
Written(s) == IF quoted THEN Doubled(s) ELSE s

Init == which \in Used /\ pos = 1 /\ text = "" /\ quoted = FALSE /\ changes = 0 /\ chosen = <<>>

\* all of the tokens up to the next joint
RECURSIVE Following(_)
Following(p) == IF p > Len(Module) \/ Module[p][1] # "t" THEN <<"", p>>
                ELSE LET f == Following(p + 1) IN <<Written(Module[p][2]) \o f[1], f[2]>>

Token == /\ ~AtEnd /\ Item[1] = "t"
         /\ LET f == Following(pos) IN text' = text \o f[1] /\ pos' = f[2]
         /\ UNCHANGED <<which, quoted, changes, chosen>>

Choices(n) == IF Random THEN {IF Pick({TRUE, FALSE}) THEN 1 ELSE Pick(1..n)} ELSE IF changes < MaxChanges THEN 1..n ELSE {1}

Joint == /\ ~AtEnd /\ Item[1] = "j"
         /\ LET ls == Layouts(Item[2]) IN
            \E n \in Choices(Len(ls)) :
              /\ text' = text \o Written(ls[n])
              /\ changes' = changes + (IF n = 1 THEN 0 ELSE 1)
              /\ chosen' = IF n = 1 THEN chosen ELSE Append(chosen, <<pos, ls[n]>>)
         /\ pos' = pos + 1
         /\ UNCHANGED <<which, quoted>>

OpenField == /\ ~AtEnd /\ Item[1] = "open"
             /\ \E q \in (IF ~Item[2] THEN {TRUE} ELSE IF Random THEN {Pick({TRUE, FALSE})} ELSE {TRUE, FALSE}) :
                  /\ quoted' = q
                  /\ text' = IF q THEN text \o "@" ELSE text
             /\ pos' = pos + 1
             /\ UNCHANGED <<which, changes, chosen>>

CloseField == /\ ~AtEnd /\ Item[1] = "close"
              /\ text' = IF quoted THEN text \o "@" ELSE text
              /\ quoted' = FALSE
              /\ pos' = pos + 1
              /\ UNCHANGED <<which, changes, chosen>>

Next == Token \/ Joint \/ OpenField \/ CloseField
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
QuotesAreClosed == AtEnd => ~quoted
ChangesAreThose == changes = Len(chosen)

Emit == (AtEnd /\ (changes >= MinChanges \/ Random)) =>
   CSVWrite("%1$s", <<ToJson([which |-> which, text |-> text, want |-> Modules[which].want])>>, IOEnv.CASES)
=============================================================================
