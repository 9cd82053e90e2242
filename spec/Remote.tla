------------------------------- MODULE Remote -------------------------------
(***************************************************************************)
(* Writing to a spreadsheet in Google Sheets, which takes several requests *)
(* (copying the spreadsheet as a backup, reading it, updating it).  Each   *)
(* of them can fail, and in between of any of them somebody else can edit  *)
(* the spreadsheet.                                                        *)
(*                                                                         *)
(* A spreadsheet has several tabs, with a title and an id.  The cells have *)
(* a value (v) and possibly formats and notes given to them by hand (u).   *)
(* They can also show the value of a formula elsewhere (kind "a"), which   *)
(* counts as a value although there's none in the cell itself.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS
    Heights, W,    \* how many rows modules have, and at most how many columns
    OldH, OldW,    \* how many rows and columns have contents at first
    CellKinds,     \* of the module: "" nothing, "t" text, "f" formula, "n" number
    OldKinds,      \* of existing cells, also "s": only formatted, "a": see above
    Offsets,
    TabSets,       \* the tabs there are
    Names,         \* --sheet-name, "" if it isn't given
    Creds,         \* which credentials there are, see Account
    Faults,        \* which request fails, "no" if none does
    Sources,       \* "ok" or "bad"
    MaxRuns,
    MaxEdits       \* by others

VARIABLES
    tabs,      \* [title, id, cells], cells being a function from positions
    copies,    \* the backups, with the tabs as they were
    phase,     \* what the current run does next
    run,       \* what the current run was asked to do
    seen,      \* the cells it read
    racy,      \* edited between reading and updating
    edits,     \* what was edited and when
    log,
    start      \* the tabs at first

vars == <<tabs, copies, phase, run, seen, racy, edits, log, start>>

-----------------------------------------------------------------------------
MaxX == CHOOSE x \in {o[1] : o \in Offsets} : \A o \in Offsets : o[1] <= x
MaxY == CHOOSE y \in {o[2] : o \in Offsets} : \A o \in Offsets : o[2] <= y
MaxH == CHOOSE h \in Heights : \A g \in Heights : g <= h
Max(a, b) == IF a > b THEN a ELSE b
Rows == 1..Max(MaxH + MaxY, OldH)
Cols == 1..Max(W + MaxX, OldW)

\* the contents of a cell, different wherever and whenever it was written
Value(kind, k, r, c) ==
    CASE kind \in {"", "s"} -> ""
      [] kind = "t" -> "t" \o ToString(k) \o "_" \o ToString(r) \o "_" \o ToString(c)
      [] kind = "a" -> "a"
      [] kind = "f" -> "=(Z9 + " \o ToString(k * 100000 + r * 10 + c) \o ")"
      [] kind = "n" -> ToString(k * 100000 + r * 10 + c)

NoCell == [v |-> "", u |-> FALSE]
OldCell(kind, k, r, c) == [v |-> Value(kind, k, r, c), u |-> kind \notin {"", "a"}]

Pick(S) == RandomElement(IF Len(log) < 0 THEN {} ELSE S)

RandomContents(k) ==
    [r \in Rows |-> [c \in Cols |-> IF r <= OldH /\ c <= OldW THEN OldCell(Pick(OldKinds), k, r, c) ELSE NoCell]]

RandomModule ==
    LET h == Pick(Heights) IN
    [r \in 1..h |-> LET w == Pick(1..W) IN [c \in 1..w |-> Pick(CellKinds)]]

Has(g, r, c) == r \in 1..Len(g) /\ c \in 1..Len(g[r])

-----------------------------------------------------------------------------
(* Whose account is used, "" if there is none that works *)
Account(c) == CASE c \in {"flag", "all", "flag+env", "flag+adc"} -> "flag"
                [] c \in {"env", "env+adc"} -> "env"
                [] c \in {"adc", "service"} -> c
                [] OTHER -> ""    \* "none", "missing", "junk", "type": the file isn't there, or something else

(* The tab which is written to: the one called like that (the module is called main), or else the first one *)
TabOf(name) ==
    LET n == IF name = "" THEN "main" ELSE name
        found == {i \in 1..Len(tabs) : tabs[i].title = n}
    IN IF found = {} THEN 1 ELSE CHOOSE i \in found : TRUE

Missing(name) == name # "" /\ ~\E i \in 1..Len(tabs) : tabs[i].title = name

In(m, off, r, c) == Has(m, r - off[2], c - off[1])

\* a formula elsewhere still shows its values where there's none
Put(current, cell) == IF cell.v = "" /\ current.v = "a" THEN [v |-> "a", u |-> cell.u] ELSE cell

Updated(current) ==
    LET m == run.m
        off == run.off
        k == Len(log) + 1
    IN [r \in Rows |-> [c \in Cols |->
          IF ~In(m, off, r, c) THEN current[r][c]
          ELSE LET mr == r - off[2]
                   mc == c - off[1]
               IN IF run.safe /\ seen[r][c].v # "" THEN seen[r][c]
                  ELSE Put(current[r][c], [v |-> Value(m[mr][mc], k, mr, mc), u |-> FALSE])]]

-----------------------------------------------------------------------------
Ended(stage) ==
    /\ log' = Append(log, [m |-> [r \in DOMAIN run.m |-> [c \in DOMAIN run.m[r] |-> Value(run.m[r][c], Len(log) + 1, r, c)]],
                           safe |-> run.safe, backup |-> run.backup, x |-> run.off[1], y |-> run.off[2], name |-> run.name,
                           missing |-> Missing(run.name), creds |-> run.creds, account |-> Account(run.creds),
                           fault |-> run.fault, src |-> run.src, stage |-> stage, edits |-> edits, racy |-> racy,
                           tab |-> TabOf(run.name), copies |-> Len(copies'),
                           copied |-> IF run.copied THEN copies[Len(copies)] ELSE <<>>,
                           before |-> run.before, after |-> tabs'])
    /\ phase' = "idle"
    /\ run' = [run EXCEPT !.copied = FALSE]

Idle == phase = "idle"

Begin(r) ==
    /\ Idle /\ Len(log) < MaxRuns
    /\ racy = {}
    /\ Len(log) > 0 => ~log[Len(log)].missing
    /\ run' = r
    /\ edits' = <<>>
    /\ phase' = "compile"
    /\ UNCHANGED <<tabs, copies, seen, racy, log, start>>

Compile == /\ phase = "compile"
           /\ UNCHANGED <<tabs, copies, seen, racy, edits, start>>
           /\ IF run.src = "bad" THEN Ended("compile")
              ELSE IF Account(run.creds) = "" THEN Ended("credentials")
              ELSE phase' = (IF run.backup THEN "copy" ELSE "get") /\ UNCHANGED <<log, run>>

Copy == /\ phase = "copy"
        /\ UNCHANGED <<tabs, seen, racy, edits, start>>
        /\ IF run.fault \in {"token", "copy"}
           THEN UNCHANGED copies /\ Ended("backup")
           ELSE copies' = Append(copies, tabs) /\ phase' = "get" /\ run' = [run EXCEPT !.copied = TRUE] /\ UNCHANGED log

Get == /\ phase = "get"
       /\ UNCHANGED <<tabs, copies, racy, edits, start>>
       /\ IF run.fault \in {"token", "get"}
          THEN Ended("read") /\ UNCHANGED seen
          ELSE seen' = tabs[TabOf(run.name)].cells /\ phase' = "update" /\ UNCHANGED <<log, run>>

Update == /\ phase = "update"
          /\ UNCHANGED <<copies, seen, racy, edits, start>>
          /\ IF run.fault = "update" THEN tabs' = tabs /\ Ended("update")
             ELSE /\ tabs' = [tabs EXCEPT ![TabOf(run.name)].cells = Updated(tabs[TabOf(run.name)].cells)]
                  /\ Ended("done")

\* somebody else edits a cell
Edit(t, r, c, kind) ==
    /\ phase \in {"copy", "get", "update"}
    /\ Len(edits) < MaxEdits
    /\ LET cell == Put(tabs[t].cells[r][c], OldCell(kind, 7, r, c)) IN
       /\ tabs' = [tabs EXCEPT ![t].cells[r][c] = cell]
       /\ edits' = Append(edits, [before |-> phase, tab |-> t, r |-> r, c |-> c, cell |-> cell])
       /\ racy' = IF phase = "update" /\ t = TabOf(run.name) /\ In(run.m, run.off, r, c) THEN racy \cup {<<r, c>>} ELSE racy
    /\ UNCHANGED <<copies, phase, run, seen, log, start>>

RandomRun == [m |-> RandomModule, safe |-> Pick(BOOLEAN), backup |-> Pick(BOOLEAN), off |-> Pick(Offsets),
              name |-> Pick({n \in Names : n \in {"", "nowhere"} \/ \E i \in 1..Len(tabs) : tabs[i].title = n}),
              creds |-> Pick(Creds), fault |-> Pick(Faults), src |-> Pick(Sources), copied |-> FALSE, before |-> tabs]

Init == /\ log = <<>>
        /\ start = <<>>
        /\ tabs = <<>>
        /\ copies = <<>>
        /\ phase = "start"
        /\ run = [m |-> <<>>]
        /\ seen = <<>>
        /\ racy = {}
        /\ edits = <<>>

Setup == /\ phase = "start"
         /\ \E ts \in {Pick(TabSets)} :
            tabs' = [i \in 1..Len(ts) |-> [title |-> ts[i].title, id |-> ts[i].id, cells |-> RandomContents(8 + i)]]
         /\ start' = tabs'
         /\ phase' = "idle"
         /\ UNCHANGED <<copies, run, seen, racy, edits, log>>

\* `k` makes it more likely that a run goes on
Next == \/ Setup
        \/ Begin(RandomRun)
        \/ \E k \in 1..3 : Compile \/ Copy \/ Get \/ Update
        \/ phase \in {"copy", "get", "update"} /\ \E t \in {Pick(1..Len(tabs))}, r \in {Pick(Rows)}, c \in {Pick(Cols)}, kind \in {Pick({"t", "s", "", "n"})} : Edit(t, r, c, kind)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Last == log[Len(log)]
HasLast == log # <<>> /\ phase = "idle"
Edited(t, r, c) == \E i \in 1..Len(Last.edits) : Last.edits[i].tab = t /\ Last.edits[i].r = r /\ Last.edits[i].c = c
LastHas(r, c) == Has(Last.m, r - Last.y, c - Last.x)
At(ts, t, r, c) == ts[t].cells[r][c]

\* everything that isn't of the module stays as it is, and whatever others did to it meanwhile
OutsideIsUntouched ==
    HasLast => \A t \in 1..Len(tabs), r \in Rows, c \in Cols :
        t # Last.tab \/ ~LastHas(r, c) => \/ At(Last.after, t, r, c) = At(Last.before, t, r, c)
                                          \/ Edited(t, r, c)

\* a run that fails only leaves what others did
FailuresChangeNothing ==
    HasLast => (Last.stage # "done" => \A t \in 1..Len(tabs), r \in Rows, c \in Cols :
                                          Edited(t, r, c) \/ At(Last.after, t, r, c) = At(Last.before, t, r, c))

SafePreserves ==
    HasLast => (Last.safe => \A t \in 1..Len(tabs), r \in Rows, c \in Cols :
        At(Last.before, t, r, c).v # "" /\ ~Edited(t, r, c) => At(Last.after, t, r, c) = At(Last.before, t, r, c))

\* also what others did before it was read
SafePreservesEdits ==
    HasLast => (Last.safe => \A i \in 1..Len(Last.edits) :
        LET e == Last.edits[i] IN
        e.cell.v # "" /\ e.before \in {"copy", "get"} /\ (\A j \in (i + 1)..Len(Last.edits) : Last.edits[j].tab # e.tab \/ Last.edits[j].r # e.r \/ Last.edits[j].c # e.c)
            => At(Last.after, e.tab, e.r, e.c) = e.cell)

Overwrites ==
    HasLast => (Last.stage = "done" /\ ~Last.safe =>
        \A r \in 1..Len(Last.m) : \A c \in 1..Len(Last.m[r]) :
            At(Last.after, Last.tab, r + Last.y, c + Last.x).v \in {Last.m[r][c]} \cup (IF Last.m[r][c] = "" THEN {"a"} ELSE {}))

\* with a backup everything which is lost is in it, unless it was edited after that
NothingIsLost ==
    HasLast => (Last.backup /\ Last.stage = "done" =>
        \A t \in 1..Len(tabs), r \in Rows, c \in Cols :
            At(Last.after, t, r, c) # At(Last.before, t, r, c) =>
                At(Last.copied, t, r, c) = At(Last.before, t, r, c) \/ Edited(t, r, c))

\* for the ones in histories there must be a backup exactly if it was asked for
Emit == (phase = "idle" /\ Len(log) = MaxRuns) \/ (HasLast /\ (racy # {} \/ Last.missing)) =>
    CSVWrite("%1$s", <<ToJson([start |-> start, runs |-> log])>>, IOEnv.CASES)

-----------------------------------------------------------------------------
NoOffset == {<<0, 0>>}
SomeOffsets == {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<2, 1>>}
Tab(t, i) == [title |-> t, id |-> i]
AllTabs == {<<Tab("Sheet1", 0)>>, <<Tab("Sheet1", 12)>>, <<Tab("first", 0), Tab("main", 3)>>, <<Tab("main", 7), Tab("other", 0)>>,
            <<Tab("first", 5), Tab("other", 0)>>, <<Tab("first", 0), Tab("other", 8), Tab("main", 2)>>}
OneTab == {<<Tab("Sheet1", 0)>>}
=============================================================================
