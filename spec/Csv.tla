--------------------------------- MODULE Csv ---------------------------------
(***************************************************************************)
(* Reading the rows and fields of a spreadsheet: CSV (RFC 4180), with      *)
(* comments, lines which are continued with a \, and without the           *)
(* whitespace around a field.                                              *)
(*                                                                         *)
(* The reader is a machine which is given one character after another.    *)
(* The environment chooses them, so that the states are all of the texts. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Alphabet,     \* which characters there are
          MaxLen

VARIABLES text, st
vars == <<text, st>>

NL == "\n"
Alphabets == [small  |-> {"a", ",", "\"", NL, " ", "\\", "#"},
              quotes |-> {"a", ",", "\"", NL},
              spaces |-> {"a", ",", "\"", NL, "\t", "\r", " ", "u"}]
White == {" ", "\t", "\r"}

-----------------------------------------------------------------------------
Start == [mode |-> "top", field |-> <<>>, rec |-> <<>>, recs |-> <<>>]

EndField(s)  == [s EXCEPT !.rec = Append(@, s.field), !.field = <<>>, !.mode = "field"]
EndRecord(s) == [s EXCEPT !.recs = Append(@, Append(s.rec, s.field)), !.rec = <<>>, !.field = <<>>, !.mode = "record"]
Put(s, c)    == [s EXCEPT !.field = Append(@, c)]
Goto(s, m)   == [s EXCEPT !.mode = m]

\* in the text of a field which isn't quoted
Unquoted(s, c) == CASE c = ","  -> EndField(s)
                    [] c = NL   -> EndRecord(s)
                    [] c = "\\" -> Goto(s, "unquoted\\")
                    [] OTHER    -> Goto(Put(s, c), "unquoted")

\* before the text of a field
Field(s, c) == CASE c \in White -> Goto(s, "field")
                 [] c = ","     -> EndField(s)
                 [] c = NL      -> EndRecord(s)
                 [] c = "\""    -> Goto(s, "quoted")
                 [] c = "\\"    -> Goto(s, "field\\")
                 [] OTHER       -> Goto(Put(s, c), "unquoted")

\* after the quote which ends a field
After(s, c) == CASE c \in White -> Goto(s, "after")
                 [] c = ","     -> EndField(s)
                 [] c = NL      -> EndRecord(s)
                 [] c = "\\"    -> Goto(s, "after\\")
                 [] OTHER       -> Goto(s, "error")

Record(s, c) == IF c = "#" THEN Goto(s, "comment") ELSE Field(s, c)

Step(s, c) ==
    CASE s.mode = "top"        -> IF c = NL THEN s ELSE Record(s, c)      \* empty lines at the start
      [] s.mode = "record"     -> Record(s, c)
      [] s.mode = "comment"    -> IF c = NL THEN Goto(s, "record") ELSE s
      [] s.mode = "field"      -> Field(s, c)
      [] s.mode = "field\\"    -> IF c = NL THEN Goto(s, "field") ELSE Unquoted(Put(s, "\\"), c)
      [] s.mode = "unquoted"   -> Unquoted(s, c)
      [] s.mode = "unquoted\\" -> IF c = NL THEN Goto(s, "unquoted") ELSE Unquoted(Put(s, "\\"), c)
      [] s.mode = "quoted"     -> IF c = "\"" THEN Goto(s, "quote") ELSE Put(s, c)
      [] s.mode = "quote"      -> IF c = "\"" THEN Goto(Put(s, c), "quoted") ELSE After(s, c)
      [] s.mode = "after"      -> After(s, c)
      [] s.mode = "after\\"    -> IF c = NL THEN Goto(s, "after") ELSE Goto(s, "error")
      [] s.mode = "error"      -> s

\* at the end of the text
Finish(s) ==
    CASE s.mode \in {"top", "record", "comment"} -> s
      [] s.mode = "field" -> IF s.rec = <<>> THEN s ELSE [s EXCEPT !.recs = Append(@, s.rec)]
      [] s.mode \in {"field\\", "unquoted\\"} -> EndRecord(Put(s, "\\"))
      [] s.mode \in {"unquoted", "quoted", "quote", "after"} -> EndRecord(s)
      [] s.mode \in {"after\\", "error"} -> Goto(s, "error")

Init == text = <<>> /\ st = Start
Next == /\ Len(text) < MaxLen /\ st.mode # "error"
        /\ \E c \in Alphabets[Alphabet] : text' = Append(text, c) /\ st' = Step(st, c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE RunFrom(_, _)
RunFrom(s, t) == IF t = <<>> THEN s ELSE RunFrom(Step(s, Head(t)), Tail(t))
Run(t) == Finish(RunFrom(Start, t))

(* What's written as CSV is read as what was written.  A field can be written as it is if    *)
(* there's nothing special in it and in quotes otherwise, in which it can be anything at all *)
Quoted(f) == <<"\"">> \o FlattenSeq([i \in 1..Len(f) |-> IF f[i] = "\"" THEN <<"\"", "\"">> ELSE <<f[i]>>]) \o <<"\"">>
Plain(f) == f # <<>> /\ f[1] \notin White \cup {"#"} /\ \A i \in 1..Len(f) : f[i] \notin {",", "\"", NL, "\\"}

Written(f) == {Quoted(f)} \cup (IF Plain(f) THEN {f} ELSE {})

Fields == UNION {[1..n -> Alphabets["small"]] : n \in 0..2}
RoundTrip ==
    /\ \A f \in Fields : \A w \in Written(f) :
            /\ Run(w).recs = <<<<f>>>>
            /\ \A g \in UNION {[1..n -> Alphabets["small"]] : n \in 0..1} : \A v \in Written(g) :
                /\ Run(w \o <<",">> \o v).recs = <<<<f, g>>>>
                /\ Run(w \o <<",">> \o v \o <<NL>>).recs = <<<<f, g>>>>
                /\ Run(w \o <<NL>> \o v \o <<NL>>).recs = <<<<f>>, <<g>>>>
ASSUME RoundTrip

\* what was read does not change anymore
OnlyAdds == [][\A k \in 1..Len(st.recs) : st'.recs[k] = st.recs[k]]_vars

\* a \ at the end of a line is as if there was no line break
Continued == LET n == Len(text) IN
    n >= 2 /\ text[n - 1] = "\\" /\ text[n] = NL /\ st.mode \in {"field", "unquoted", "after"} =>
        LET t == RunFrom(Start, SubSeq(text, 1, n - 2)) IN
        t.mode \in {"unquoted", "after", "quote", "field"} =>
            t.field = st.field /\ t.rec = st.rec /\ t.recs = st.recs

\* an error stays an error, and nothing else is
Strict == st.mode = "error" => \E k \in 1..Len(text) : text[k] = "\""

Emit == LET f == Finish(st) IN
    CSVWrite("%1$s", <<ToJson([text |-> text, ok |-> f.mode # "error", recs |-> f.recs])>>, IOEnv.CASES)
=============================================================================
