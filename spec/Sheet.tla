-------------------------------- MODULE Sheet --------------------------------
(***************************************************************************)
(* Fills, and names which are bound to cells and rows.                     *)
(*                                                                         *)
(* A template is a row of the source: how it's filled (not at all, so many *)
(* times, or with the rows which are left over), the name bound to it, and *)
(* its cells, each with a name that's bound to it and/or a reference.      *)
(*                                                                         *)
(* Expanding is specified as a machine which lays out one row of the       *)
(* spreadsheet at a time.  Once all of them are in their place each        *)
(* reference is resolved from where it is.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS
    NRows,      \* number of templates
    Fills,      \* how they can be filled: None for not at all, Inf for what is left over, or a number
    Cells,      \* which pool of rows of cells to use
    Pads,       \* the numbers of empty cells that all rows start with
    RowMax,     \* the size of a spreadsheet
    Offsets     \* where it's put in a Google Sheet, as 1000 * columns + rows

VARIABLES sheet,    \* the templates
          pad, offset,
          i,        \* the template being laid out
          copies,   \* the number of copies which have been made of it
          out,      \* the rows: how often each of the templates is repeated, in order
          phase

vars == <<sheet, pad, offset, i, copies, out, phase>>

-----------------------------------------------------------------------------
(* Rows of cells.  In a reference, "f v" is a call of a function using v. *)
Blank == [var |-> "", ref |-> ""]
Var(v) == [var |-> v, ref |-> ""]
Ref(r) == [var |-> "", ref |-> r]

Row(rowvar, cells) == [rowvar |-> rowvar, cells |-> cells]

Pool ==
  [plain |-> {Row("", <<>>), Row("", <<Blank, Blank>>)},
   row   |-> {Row("r", <<Blank, Ref("r")>>)},
   small |-> {Row("", <<Var("v"), Blank>>), Row("", <<Ref("v"), Blank>>), Row("", <<Blank, Ref("v")>>),
              Row("", <<Ref("f v"), Var("v")>>), Row("r", <<Ref("r"), Ref("v")>>), Row("", <<Ref("r"), [var |-> "v", ref |-> "v"]>>)},
   large |-> {Row("", <<Var("v"), Blank>>), Row("", <<Ref("v"), Blank>>), Row("", <<Blank, Ref("v")>>),
              Row("", <<Ref("f v"), Var("v")>>), Row("r", <<Ref("r"), Ref("v")>>), Row("", <<Ref("r"), [var |-> "v", ref |-> "v"]>>),
              Row("v", <<Ref("v"), Ref("w")>>), Row("v", <<Ref("f r"), Var("v")>>), Row("", <<Var("v"), Var("v"), Ref("v")>>),
              Row("r", <<Var("w"), Ref("f w"), Ref("v")>>), Row("", <<>>), Row("w", <<Ref("w")>>)}]

Templates == [fill : Fills, row : Pool[Cells]]

\* of the first letters for the columns
Letters == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
RECURSIVE Col(_)
Col(c) == IF c <= 26 THEN Letters[c] ELSE Col((c - 1) \div 26) \o Letters[((c - 1) % 26) + 1]

None == 5000
Inf  == 6000
Infinite(t) == t.fill = Inf
Filled(t) == t.fill # None

RECURSIVE SumFixed(_)
SumFixed(s) == IF s = <<>> THEN 0
               ELSE SumFixed(Tail(s)) + (CASE Head(s).fill = None -> 1 [] Head(s).fill = Inf -> 0 [] OTHER -> Head(s).fill)

Illegal == Cardinality({k \in 1..Len(sheet) : Infinite(sheet[k])}) > 1

\* how many rows the template makes
Copies(t) == CASE t.fill = None -> 1
               [] t.fill = Inf -> IF SumFixed(sheet) >= RowMax THEN 0 ELSE RowMax - SumFixed(sheet)
               [] OTHER -> t.fill

-----------------------------------------------------------------------------
Init == /\ sheet \in [1..NRows -> Templates]
        /\ pad \in Pads
        /\ offset \in Offsets
        /\ i = 1 /\ copies = 0 /\ out = <<>> /\ phase = "lay out"

\* one more row
Lay == /\ phase = "lay out" /\ ~Illegal
       /\ i <= Len(sheet) /\ copies < Copies(sheet[i])
       \* (rows of a large fill are the same, except for the last one)
       /\ copies' = IF Copies(sheet[i]) > 10 /\ copies < Copies(sheet[i]) - 1 THEN Copies(sheet[i]) - 1 ELSE copies + 1
       /\ out' = IF copies = 0 THEN Append(out, copies') ELSE [out EXCEPT ![i] = copies']
       /\ UNCHANGED <<sheet, pad, offset, i, phase>>

NextTemplate == /\ phase = "lay out" /\ ~Illegal
                /\ i <= Len(sheet) /\ copies = Copies(sheet[i])
                /\ out' = IF copies = 0 THEN Append(out, 0) ELSE out
                /\ i' = i + 1 /\ copies' = 0
                /\ phase' = IF i = Len(sheet) THEN "done" ELSE phase
                /\ UNCHANGED <<sheet, pad, offset>>

Next == Lay \/ NextTemplate
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Where everything ended up *)
RECURSIVE Before(_)
Before(k) == IF k = 1 THEN 0 ELSE Before(k - 1) + out[k - 1]
First(k) == Before(k) + 1
Last(k)  == Before(k) + out[k]
Total == Before(Len(sheet)) + out[Len(sheet)]

Num(n) == ToString(n)

\* what binds the name: <<template, column>>, with column 0 for the row.  The last one wins, cells
\* of a row after the row itself.  Templates without any rows don't bind anything
Bindings(v) == {b \in (1..Len(sheet)) \X (0..4) : LET k == b[1] c == b[2] IN
                    /\ out[k] > 0
                    /\ IF c = 0 THEN sheet[k].row.rowvar = v
                       ELSE c <= Len(sheet[k].row.cells) /\ sheet[k].row.cells[c].var = v}
Binding(v) == LET B == Bindings(v) IN
              CHOOSE b \in B : \A o \in B : o[1] < b[1] \/ (o[1] = b[1] /\ o[2] <= b[2])

\* what `v` is for a cell in one of the rows of the template k, if the spreadsheet is put at (ox, oy).
\* A `#` stands for the row of that cell
Resolve(v, k, ox, oy) ==
    IF Bindings(v) = {} THEN v
    ELSE LET b == Binding(v)
             d == b[1]
             col == IF b[2] = 0 THEN "" ELSE Col(pad + b[2] + ox)
             at(x, y) == IF b[2] = 0 THEN x \o ":" \o y ELSE IF x = y /\ ~Filled(sheet[d]) THEN col \o x ELSE col \o x \o ":" \o col \o y
             first == Num(First(d) + oy)
             last == Num(Last(d) + oy)
         IN IF ~Filled(sheet[d]) THEN (IF b[2] = 0 THEN first \o ":" \o first ELSE col \o first)
            ELSE IF d = k THEN (IF b[2] = 0 THEN "#:#" ELSE col \o "#")
            ELSE at(first, last)

\* fn f(x) (x + v), called as f(v)
TextAt(ref, k, ox, oy) ==
    LET R(v) == Resolve(v, k, ox, oy) IN
    CASE ref = "" -> ""
      [] ref = "f v" -> "=(" \o R("v") \o " + " \o R("v") \o ")"
      [] ref = "f r" -> "=(" \o R("r") \o " + " \o R("v") \o ")"
      [] ref = "f w" -> "=(" \o R("w") \o " + " \o R("v") \o ")"
      [] OTHER -> "=" \o R(ref)
Text(ref, k) == TextAt(ref, k, 0, 0)
OX == offset \div 1000
OY == offset % 1000

-----------------------------------------------------------------------------
Done == phase = "done"

\* there are exactly as many copies as were asked for, and an infinite fill is what's left over
Complete == Done => /\ Len(out) = Len(sheet)
                    /\ \A k \in 1..Len(sheet) : out[k] = Copies(sheet[k])
FillsTheSheet == Done /\ (\E k \in 1..Len(sheet) : Infinite(sheet[k]))
                            => Total = RowMax \/ (Total > RowMax /\ \A k \in 1..Len(sheet) : Infinite(sheet[k]) => out[k] = 0)

\* fills are disjoint and in order
InOrder == Done => \A k, l \in 1..Len(sheet) : k < l => Last(k) < First(l)

\* no row is forgotten, there's always a next one
NoDeadlock == Done \/ Illegal \/ ENABLED Next

Emit == (Done \/ (Illegal /\ i = 1 /\ copies = 0)) =>
    CSVWrite("%1$s", <<ToJson([
        sheet |-> sheet, pad |-> pad, ok |-> ~Illegal, x |-> OX, y |-> OY,
        rows |-> IF Illegal THEN <<>>
                 ELSE [k \in 1..Len(sheet) |-> [n |-> out[k], first |-> First(k),
                          cells |-> [c \in 1..Len(sheet[k].row.cells) |-> Text(sheet[k].row.cells[c].ref, k)],
                          \* the formulas of the Google Sheet
                          remote |-> [c \in 1..Len(sheet[k].row.cells) |-> TextAt(sheet[k].row.cells[c].ref, k, OX, OY)]]]])>>, IOEnv.CASES)
=============================================================================
