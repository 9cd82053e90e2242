------------------------------ MODULE Mistakes ------------------------------
(* A module with exactly one mistake in it, and what csv++ has to say about  *)
(* it: the file, the section or the cell, the line and the place in the line *)
(* where it is.  The module is written from its start to its end, such that  *)
(* the place which was reached is always known.                              *)
(*                                                                           *)
(* In texts ~ is a line break, @ a double quote and ` an é.                       *)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json, CSV
CONSTANTS Files,        \* where it's written to: "main" or "dep", which is imported by main
          Codes,        \* can there be a code section?  {TRUE}, {FALSE} or both
          MaxItems,     \* in the code section
          MaxRows, MaxCells,
          MinItems, MinRows     \* before it's finished
VARIABLES text, line, col,      \* what was written and where its end is, lines and columns count from 0
          file, section,        \* "code", "csv", "done"
          items, defined,       \* of the code section; was the function g defined?
          started,              \* is something of the CSV section not blank?
          record, row, cell,    \* the current record in the file, row of the sheet and the cell in it
          units,                \* records, comments and blank lines
          mistake               \* what has to be reported
vars == <<text, line, col, file, section, items, defined, started, record, row, cell, units, mistake>>

None == [kind |-> "none"]
Made == mistake # None

(* The place which is reached by writing s, TLC's strings are sequences of characters *)
RECURSIVE LastBreak(_, _)
LastBreak(s, i) == IF i = 0 THEN 0 ELSE IF SubSeq(s, i, i) = "~" THEN i ELSE LastBreak(s, i - 1)
RECURSIVE Breaks(_, _)
Breaks(s, i) == IF i = 0 THEN 0 ELSE (IF SubSeq(s, i, i) = "~" THEN 1 ELSE 0) + Breaks(s, i - 1)
LineAfter(l, s) == l + Breaks(s, Len(s))
ColAfter(c, s) == LET b == LastBreak(s, Len(s)) IN IF b = 0 THEN c + Len(s) ELSE Len(s) - b

Write(s) == /\ text' = text \o s
            /\ line' = LineAfter(line, s)
            /\ col' = ColAfter(col, s)

---------------------------------------------------------------------------
(* The code section *)
GoodItems == {"", "# c ) ` @", "v := 1", "v := zz(`, 1)", "fn g(x) x + 1", "fn h(x, y)~  x *~  y", "t := @a~@@b@ & 1",
              "m :=~~  1 + # c~  2", "~~", "fn `() @~~@"}

(* [before, it, after] *)
BadItems == {
  <<"b := ", ")", "">>, <<"b := 1 * `(2) ", ")", "">>, <<"b := @`~`@ + ", ")", "">>, <<"fn ", "(", "x) x">>,
  <<"fn f(x, ", "1", ") x">>, <<"b ", "=", " 1">>, <<"", "1", " := 1">>, <<"b := 1 +~  `", "?", "">>,
  <<"b := ", "99999999999999999999", "">>, <<"b := 1%", "%", "">>, <<"b :=~ ", "*", " 2">>, <<"b := 1 ", ":=", " 2">>,
  <<"b := @~@ & @`@ & ", "<>", " 1">>, <<"fn f ", ":=", " 1">>, <<"b := zz(@`@, (1 + 2) ", ":=", "">>}

(* These are noticed at the end of the code section, so they're the last of it *)
BadEnds == {<<"b := zz(1, 2", "", "">>, <<"# `~b := (1~ + 2", "", "">>, <<"b :=", "", "">>, <<"b :=", "@abc", "">>, <<"fn f(x", "", "">>}

Item == /\ section = "code" /\ items < MaxItems
        /\ \E i \in GoodItems : /\ Write(i \o "~")
                                /\ defined' = (defined \/ i = "fn g(x) x + 1")
        /\ items' = items + 1
        /\ UNCHANGED <<file, section, started, record, row, cell, mistake, units>>

BadItem == /\ section = "code" /\ ~Made /\ items < MaxItems
           /\ \E b \in BadItems :
                /\ Write(b[1] \o b[2] \o b[3] \o "~")
                /\ mistake' = [kind |-> "code", line |-> LineAfter(line, b[1]), from |-> ColAfter(col, b[1]), to |-> ColAfter(col, b[1]),
                               cell |-> <<0, 0>>]
           /\ items' = items + 1
           /\ UNCHANGED <<file, section, defined, started, record, row, cell, units>>

Separator == "---~"

EndCode == /\ section = "code" /\ items >= MinItems
           /\ Write(Separator)
           /\ section' = "csv"
           /\ UNCHANGED <<file, items, defined, started, record, row, cell, mistake, units>>

BadEnd == /\ section = "code" /\ ~Made /\ items < MaxItems
          /\ \E b \in BadEnds :
                /\ Write(b[1] \o b[2] \o b[3] \o "~" \o Separator)
                /\ mistake' = [kind |-> "code", line |-> LineAfter(line, b[1]), from |-> ColAfter(col, b[1]), to |-> ColAfter(col, b[1]),
                               cell |-> <<0, 0>>]
          /\ section' = "csv"
          /\ UNCHANGED <<file, items, defined, started, record, row, cell, units>>

---------------------------------------------------------------------------
(* The CSV section *)
GoodCells == {"x", "`", "", "  x ", "@a, @@b@@@", "@a~b@", "y\\~z", "@y@ \\~ ", "[[b=l]]`", "@[[n='a~b']] `@", "=1 + `", "@=zz(1,~ 2)@", "@ ~`@"}

(* A formula is preceded by nothing, by options or by space which doesn't count *)
Raw(f) == {<<p \o f[1], f[2], f[3]>> : p \in {"", "  ", "[[b=l]]", "`\\~", "[[b=l]] \\~ "}}
Quoted(f) == {<<"@" \o p \o f[1], f[2], f[3] \o "@">> : p \in {"", " ~ ", "[[n='@@`~']]", " ~[[b=l]] ~"}}
(* ` before a formula would make it a text *)
Formulas(f) == {c \in Raw(f) : c[1] # "`\\~" \o f[1]} \cup Quoted(f)
BadFormulas ==
  UNION {Formulas(f) : f \in {<<"=1 + ", ")", "">>, <<"=`", "?", "">>, <<"=zz(1", "", "">>, <<"=1%", "%", "">>, <<"=", "*", "2">>,
                              <<"=zz(` + 1) ", ":=", "">>}}
  \cup UNION {Quoted(f) : f \in {<<"=zz(1, @@`@@) + ", ")", "">>, <<"=1 +~` + ~ ", ")", "">>, <<"=@@a~b@@ & ", ")", "">>,
                                 <<"=zz(1,~2", "", "">>, <<"=1 # `~+`", "?", " 1">>}}

BadOptions ==
  {<<"[[", "foo", "]]x">>, <<"[[b=", "foo", "]]x">>, <<"[[b=l ", "?", "]]x">>, <<"[[c=", "#12", "]]x">>, <<"[[b=l]]", "[[", "b=r]]x">>,
   <<"[[b=l", "]", "x">>, <<"[[", "fill", "=2]]x">>, <<"[[n=", "'x]]y", "">>, <<"@[[n='a~b'~", "foo", "]]x@">>,
   <<"@[[n='`~'~~", "?", "]]x@">>, <<"[[b=l \\~", "foo", "]]x">>, <<"[[b=l\\~ ", "?", "]]x">>, <<"[[dv=", "foo", "(1)]]">>,
   <<"[[dv=date_gt(", "foo", ")]]">>, <<" [[fs=", "999", "]]">>, <<"@ ~ [[nf=", "`", "]]@">>, <<"[[lock", "=", "1]]">>}

(* What isn't CSV *)
BadFields == {<<"@q@ ", "z", "">>, <<"@q~q@\\~ ", "z", "">>, <<"@@@`@", "`", "">>}

(* These can be read but not evaluated; there's no place in the line for them *)
BadCalls == {"@=g(1, 2)@", "@[[b=l]] =1 + g(g(), `)@", "=g()", "@=zz(1,~ g(1, `))@"}

NextCell(s) == (IF cell = 0 THEN "" ELSE ",") \o s

Cell == /\ section = "csv" /\ cell < MaxCells /\ units < MaxRows
        /\ \E c \in GoodCells : /\ (cell = 0 => c # "")
                                /\ Write(NextCell(c))
        /\ cell' = cell + 1 /\ started' = TRUE
        /\ UNCHANGED <<file, section, items, defined, record, row, mistake, units>>

(* the cell at which the mistake b was made *)
At(b, kind, slack) ==
  LET s == NextCell(b[1]) IN
  [kind |-> kind, line |-> LineAfter(line, s), cell |-> <<cell, record>>,
   from |-> IF slack = 0 \/ ColAfter(col, s) = 0 THEN ColAfter(col, s) ELSE ColAfter(col, s) - 1,
   to |-> ColAfter(col, s) + (IF slack = 0 THEN 0 ELSE Len(b[2]))]

BadCell == /\ section = "csv" /\ ~Made /\ cell < MaxCells /\ units < MaxRows
           /\ \/ \E b \in BadFormulas : Write(NextCell(b[1] \o b[2] \o b[3])) /\ mistake' = At(b, "cell", 0)
              \/ \E b \in BadOptions : Write(NextCell(b[1] \o b[2] \o b[3])) /\ mistake' = At(b, "cell", 1)
              \/ /\ cell > 0
                 /\ \E b \in {<<"", "![[", "lock]]x">>, <<"[[b=l]] ", "![[", "lock]]x">>} :
                        Write(NextCell(b[1] \o b[2] \o b[3])) /\ mistake' = At(b, "cell", 1)
              \/ \E b \in BadFields : Write(NextCell(b[1] \o b[2] \o b[3])) /\ mistake' = At(b, "csv", 0)
              \/ /\ defined /\ file = "main"
                 /\ \E b \in BadCalls : Write(NextCell(b))
                 /\ mistake' = [kind |-> "eval", line |-> 0, from |-> 0, to |-> 0, cell |-> <<cell, row>>]
           /\ cell' = cell + 1 /\ started' = TRUE
           /\ UNCHANGED <<file, section, items, defined, record, row, units>>

EndRow == /\ section = "csv" /\ cell > 0
          /\ Write("~")
          /\ cell' = 0 /\ record' = record + 1 /\ row' = row + 1
          /\ units' = units + 1
          /\ UNCHANGED <<file, section, items, defined, started, mistake>>

(* comments and blank lines are lines, blank lines are rows too unless they're the first *)
Comment == /\ section = "csv" /\ cell = 0 /\ units < MaxRows
           /\ \E c \in {"#`~", "# @q@ z~"} : Write(c)
           /\ started' = TRUE
           /\ units' = units + 1
           /\ UNCHANGED <<file, section, items, defined, record, row, cell, mistake>>
Blank == /\ section = "csv" /\ cell = 0 /\ units < MaxRows
         /\ Write("~")
         /\ IF started THEN record' = record + 1 /\ row' = row + 1 ELSE UNCHANGED <<record, row>>
         /\ units' = units + 1
         /\ UNCHANGED <<file, section, items, defined, started, cell, mistake>>

(* a row of the file which is several of the sheet *)
Fill == /\ section = "csv" /\ cell = 0 /\ units < MaxRows
        /\ \E n \in {1, 3} : /\ Write("![[fill=" \o ToString(n) \o "]]x,`~")
                             /\ row' = row + n
        /\ record' = record + 1 /\ started' = TRUE
        /\ units' = units + 1
        /\ UNCHANGED <<file, section, items, defined, cell, mistake>>

Finish == /\ section = "csv" /\ Made /\ units >= MinRows /\ section' = "done"
          /\ UNCHANGED <<text, line, col, file, items, defined, started, record, row, cell, mistake, units>>

Init == /\ file \in Files
        /\ section \in {IF c THEN "code" ELSE "csv" : c \in Codes}
        /\ text = "" /\ line = 0 /\ col = 0 /\ items = 0 /\ defined = FALSE /\ started = FALSE
        /\ record = 0 /\ row = 0 /\ cell = 0 /\ units = 0 /\ mistake = None

Next == Item \/ BadItem \/ EndCode \/ BadEnd \/ Cell \/ BadCell \/ EndRow \/ Comment \/ Blank \/ Fill \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
PlaceIsTheEnd == line = Breaks(text, Len(text)) /\ col = ColAfter(0, text)
MistakeIsInside == Made => /\ mistake.line <= line
                           /\ mistake.from <= mistake.to
                           /\ mistake.cell[2] <= (IF mistake.kind = "eval" THEN row ELSE record)

Emit == section = "done" => CSVWrite("%1$s", <<ToJson([file |-> file, text |-> text, mistake |-> mistake])>>, IOEnv.CASES)
=============================================================================
