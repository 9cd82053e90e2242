------------------------------- MODULE Target -------------------------------
(***************************************************************************)
(* What happens to the contents of a spreadsheet when modules are written  *)
(* to it, again and again: which of its values are replaced and which are  *)
(* preserved.                                                              *)
(*                                                                         *)
(* The spreadsheet maps every cell to the set of values which it's allowed *)
(* to have ("" is nothing).  It's a set because it's left open what        *)
(* becomes of the existing cells of a CSV file that the module does not    *)
(* have when it's allowed to overwrite them.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS
    Kind,        \* "csv", "xlsx" or "gs" (Google Sheets)
    H, W,        \* how many rows and columns modules and existing contents have at most
    CellKinds,   \* of module cells: "" nothing, "t" text, "f" formula, "n" number, "q" text with quotes
                 \* and commas, "h" text that looks like a comment, "l" of several lines
    OldKinds,    \* of existing cells, also "p": with whitespace around it, "s": formatted but without a value
    MaxWrites,
    Offsets,     \* of the module in the spreadsheet
    Random       \* choose the contents randomly instead of trying all of them

VARIABLES
    old,       \* the contents to begin with, as rows
    sheet,     \* the contents
    skipping,  \* what the contents would be if the empty lines of `old` weren't there
    log,       \* what was written, and the contents after that
    done

vars == <<old, sheet, skipping, log, done>>

-----------------------------------------------------------------------------
Digit(n) == CASE n = 0 -> "0" [] n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3" [] n = 4 -> "4" [] OTHER -> "9"

\* the contents of a cell of each kind, which are different wherever and whenever they're written
Value(kind, k, r, c) ==
    LET id == Digit(k) \o Digit(r) \o Digit(c) IN
    CASE kind \in {"", "s"} -> ""
      [] kind = "t" -> "t" \o id
      [] kind = "q" -> "q, ''" \o id \o "''"
      [] kind = "h" -> "#" \o id
      [] kind = "l" -> "l" \o id \o "\n" \o id
      [] kind = "p" -> "  p" \o id \o " "
      [] kind = "f" -> "=(A9 + 1" \o id \o ")"
      [] kind = "n" -> "1" \o id

RowsOf(kinds) == UNION {[1..w -> kinds] : w \in 1..W}
GridsOf(kinds, least) == UNION {[1..h -> RowsOf(kinds)] : h \in least..H}

\* RandomElement of something which depends on the state, or else it's evaluated once
Pick(S) == RandomElement(IF Len(log) < 0 THEN {} ELSE S)

RandomRow(kinds)  == LET w == Pick(1..W) IN [c \in 1..w |-> Pick(kinds)]
RandomGrid(kinds, least) == LET h == Pick(least..H) IN [r \in 1..h |-> RandomRow(kinds)]

\* the cells which there can be in the spreadsheet
MaxX == CHOOSE x \in {o[1] : o \in Offsets} : \A o \in Offsets : o[1] <= x
MaxY == CHOOSE y \in {o[2] : o \in Offsets} : \A o \in Offsets : o[2] <= y
Rows == 1..(H + MaxY)
Cols == 1..(W + MaxX)

Has(g, r, c) == r \in 1..Len(g) /\ c \in 1..Len(g[r])

Contents(g) == [r \in Rows |-> [c \in Cols |-> {IF Has(g, r, c) THEN Value(g[r][c], 0, r, c) ELSE ""}]]

IsBlankLine(row) == Len(row) = 1 /\ row[1] = ""

\* the contents without the rows which are empty lines (their values are those of where they were)
RECURSIVE NonBlank(_, _)
NonBlank(g, i) == IF i > Len(g) THEN <<>> ELSE (IF IsBlankLine(g[i]) THEN <<>> ELSE <<i>>) \o NonBlank(g, i + 1)
ContentsSkipping(g) ==
    LET at == NonBlank(g, 1) IN
    [r \in Rows |-> [c \in Cols |-> {IF r <= Len(at) /\ Has(g, at[r], c) THEN Value(g[at[r]][c], 0, at[r], c) ELSE ""}]]

-----------------------------------------------------------------------------
\* the contents after writing the rows `m` to them
Written(s, m, safe, off, k) ==
    [r \in Rows |-> [c \in Cols |->
        LET mr == r - off[2]
            mc == c - off[1]
        IN IF Has(m, mr, mc)
           THEN LET new == Value(m[mr][mc], k, mr, mc) IN
                IF safe THEN {IF v = "" THEN new ELSE v : v \in s[r][c]} ELSE {new}
           ELSE IF safe \/ Kind # "csv" THEN s[r][c] ELSE s[r][c] \cup {""}]]

Init == /\ log = <<>>
        /\ done = FALSE
        /\ IF Random THEN old = <<>> ELSE old \in GridsOf(OldKinds, 0)
        /\ sheet = Contents(old)
        /\ skipping = ContentsSkipping(old)

\* simulation starts with something random
Begin == /\ Random /\ log = <<>> /\ old = <<>> /\ ~done
         /\ old' = RandomGrid(OldKinds, 1)
         /\ sheet' = Contents(old')
         /\ skipping' = ContentsSkipping(old')
         /\ UNCHANGED <<log, done>>

WriteOne(m, safe, off) ==
    LET k == Len(log) + 1 IN
    /\ sheet' = Written(sheet, m, safe, off, k)
    /\ skipping' = Written(skipping, m, safe, off, k)
    /\ log' = Append(log, [m |-> [r \in DOMAIN m |-> [c \in DOMAIN m[r] |-> Value(m[r][c], k, r, c)]],
                           grid |-> m,
                           safe |-> safe, x |-> off[1], y |-> off[2],
                           before |-> sheet, after |-> sheet', skipped |-> skipping'])

Write == /\ Len(log) < MaxWrites
         /\ ~done
         /\ ~Random \/ old # <<>>
         /\ \E safe \in BOOLEAN, off \in Offsets :
              IF Random THEN WriteOne(RandomGrid(CellKinds, 1), safe, off)
              ELSE \E m \in GridsOf(CellKinds, 1) : WriteOne(m, safe, off)
         /\ UNCHANGED <<old, done>>

Finish == /\ ~done
          /\ Len(log) = MaxWrites \/ (Random /\ log # <<>>)
          /\ done' = TRUE
          /\ UNCHANGED <<old, sheet, skipping, log>>

Next == Begin \/ Write \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a user relies on *)

Last == log[Len(log)]
Cells == Rows \X Cols

\* with --safe nothing that has a value is ever changed
SafePreserves ==
    log # <<>> => (Last.safe => \A p \in Cells : \A v \in Last.before[p[1]][p[2]] :
                                    v # "" => v \in Last.after[p[1]][p[2]])

SafeAddsOnly ==
    log # <<>> => (Last.safe => \A p \in Cells : \A v \in Last.after[p[1]][p[2]] :
                       \/ v \in Last.before[p[1]][p[2]]
                       \/ "" \in Last.before[p[1]][p[2]] /\ Has(Last.grid, p[1] - Last.y, p[2] - Last.x))

\* everything of the module is there afterwards if it's allowed to overwrite
Overwrites ==
    log # <<>> => (~Last.safe => \A r \in 1..Len(Last.m) : \A c \in 1..Len(Last.m[r]) :
                                     Last.after[r + Last.y][c + Last.x] = {Last.m[r][c]})

\* writing the same thing once more changes nothing
Idempotent ==
    log # <<>> => LET again == Written(sheet, Last.grid, Last.safe, <<Last.x, Last.y>>, Len(log)) IN again = sheet

\* what's outside of the module isn't touched in spreadsheets that can have other things in them
OutsideIsUntouched ==
    log # <<>> /\ Kind # "csv" =>
        \A p \in Cells : ~Has(Last.grid, p[1] - Last.y, p[2] - Last.x) =>
                            Last.after[p[1]][p[2]] = Last.before[p[1]][p[2]]

\* and nothing is ever made up: all of the values come from where they are
NothingIsMoved ==
    Offsets = {<<0, 0>>} =>
        \A p \in Cells : \A v \in sheet[p[1]][p[2]] :
            v # "" => \E k \in 0..Len(log), kind \in CellKinds \cup OldKinds : v = Value(kind, k, p[1], p[2])

Emit == done =>
    CSVWrite("%1$s", <<ToJson([kind |-> Kind,
                               old |-> [r \in DOMAIN old |-> [c \in DOMAIN old[r] |->
                                           [k |-> old[r][c], v |-> Value(old[r][c], 0, r, c)]]],
                               blanks |-> \E r \in DOMAIN old : IsBlankLine(old[r]),
                               writes |-> [i \in DOMAIN log |->
                                   [m |-> log[i].m, safe |-> log[i].safe, x |-> log[i].x, y |-> log[i].y,
                                    before |-> log[i].before, after |-> log[i].after, skipped |-> log[i].skipped]]])>>,
             IOEnv.CASES)


\* for the configurations
NoOffset == {<<0, 0>>}
SomeOffsets == {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<1, 1>>}
=============================================================================
