------------------------------- MODULE Robust -------------------------------
(* What is given to csv++ can be anything: a module is written by hand, an   *)
(* output can have been there before and be of another program.  This spec   *)
(* generates what can be given, as sequences of tokens for each of the       *)
(* surfaces of csv++, and says what can become of it: a run of csv++ always  *)
(* ends, and it either has been compiled or it is rejected with a message.   *)
(*                                                                           *)
(* Tokens are spelled as they're written except for those in capitals, i.e.  *)
(* DQ for a double quote, NL for a line break (checks/c05.py has all).       *)
EXTENDS Naturals, Sequences, IOUtils, Json, CSV
CONSTANTS Surfaces,     \* those which are explored
          MaxLen,       \* sequences up to this length which start from nothing
          MaxEdits,     \* number of edits of those which start from a seed
          MinEdits,     \* emit those which were edited this many times
          Lengths       \* one token can be repeated this many times, after up to 3 other characters
VARIABLES surface, toks, edits, seeded, phase, long
vars == <<surface, toks, edits, seeded, phase, long>>

---------------------------------------------------------------------------
Names == {"text", "border", "bordercolor", "borderstyle", "color", "fill", "fontcolor", "fontfamily", "fontsize",
          "halign", "lock", "note", "numberformat", "valign", "validate", "var", "textwrap", "hide"}

Alphabet(s) ==
  CASE s = "formula" -> {"(", ")", ",", "+", "-", "*", "%", ":", "!", "1", "1.5", "A1", "f", "é", "EMOJI", "DQ", "'",
                         "#", "=", ":=", "BS", "[[", " ", "NL", "fn", "use", "true", "$", "9223372036854775808", "1e5"}
    [] s = "cell" -> {"DQ", ",", "NL", "CR", "BS", "#", "=", "[[", "]]", "![[", "x", " ", "é", "EMOJI", "TAB", "NUL", "---", "1", "BOM", "XFF"}
    [] s = "code" -> {"fn ", "use ", "a", "b", "f", "(", ")", ",", ":=", "=", "1", "DQ", "NL", "#", "---", " ", "+", "é", "XFF", "/", ".", "BS", "DEP", "main", "TAB"}
    [] s = "options" -> {"[[", "]]", "![[", "=", "/", "'", "BS", " ", "é", "EMOJI", "(", ")", "NL", "1", "#fff", "x"}
                        \cup {"text", "border", "fill", "note", "validate", "var", "lock", "color"}
    [] s = "value" -> {"=", "'", "BS", " ", "é", "EMOJI", "(", ")", "NL", "1", "0", "999", "-1", "#", "abc", "ABCDEF", "1234567",
                       "all", "bold", "left", "solid", "xé", "/", "]]", "_", ".", "BIG"}
    [] s = "validation" -> {"(", ")", " ", "'", "x", "é", "1", "-", "1.5", "BIG", "1/2/2024", "2024-13-45", "2024-01-02 10:00", "0/0/0", "10:00",
                            "1/1/1800", "A1:B2", "$A", "Sheet!A1", "$", ":", "!", "]]", "=", "NL", "DQ"}
    [] s = "keyvalue" -> {"a", "=", "(", ")", ",", "1", "DQ", "'", " ", "é", "NL", "#", ":=", "---", "f", "A1", "--", "BS", "fn "}
    [] s = "existing" -> {"DQ", ",", "NL", "CR", "x", " ", "é", "XFF", "NUL", "BOM", "=1", "#", "BS", ";"}
    [] s = "arguments" -> {"main.csvpp", "dir.csvpp", "dir", "none.csvpp", "plain", ".", "/", "-o", "out.csv", "out.xlsx", "out.ods", "out.txt", "out",
                           "dir/none/out.csv", "out.XFF", "XFF", "-k", "a=1", "a", "-s", "é", "-x", "-y", "1", "-1", "4294967296", "-v", "-vvvv", "--safe", "-b",
                           "-n", "-g", "--", "--help", "-V"}

Validations == {"custom", "date_after", "date_between", "date_is_valid", "is_date", "in_list", "in_range", "is_email", "number_between",
                "number_equal_to", "number_less_than", "text_contains", "text_eq"}

(* Things which are right.  What's nearly right gets further in the compiler than what's arbitrary. *)
Seeds(s) ==
  CASE s = "formula" -> {<<"f", "(", "1", ",", "A1", ")", "+", "(", "1.5", "*", "é", ")">>,
                         <<"-", "1", "%", "+", "DQ", "x", "DQ", "&", "A1", ":", "B2">>,
                         <<"IF", "(", "Sheet", "!", "A1", ",", " ", ",", "g", "(", ")", ")">>}
    [] s = "cell" -> {<<"x", ",", "DQ", "y", ",", "DQ", "DQ", "z", "NL", "DQ", ",", "1", "NL", "![[", "fill=2", "]]", "=1", ",", "BS", "NL", "x">>,
                      <<"#", "x", "NL", "é", "DQ", ",", "EMOJI", ",", "[[", "b=l", "]]", "é", ",", " ", "NL", "x">>}
    [] s = "code" -> {<<"use ", "DEP", "NL", "fn ", "f", "(", "a", ",", "b", ")", "a", "+", "b", "NL", "a", ":=", "f", "(", "1", ",", "b", ")", "#", "é", "NL", "b", ":=", "a">>,
                      <<"#", "NL", "a", ":=", "DQ", "é", "DQ", "NL", "NL", "fn ", "f", "(", ")", "NL", "a", "NL", "---", "NL", "=a">>}
    [] s = "options" -> {<<"![[", "fill", "=", "1", "]]", "[[", "note", "=", "'", "x", "BS", "'", "é", "'", "/", "text", "=", "bold", " ", "var", "=", "é", "]]", "=", "1">>,
                         <<" ", "[[", "color", "=", "#fff", " ", "lock", "/", "border", "=", "all", " ", "]]", " ", "![[", "lock", "]]", "EMOJI">>}
    [] s = "value" -> {<<n, "=", v>> : n \in Names, v \in {"1", "left", "#abc", "bold", "'", "solid"}}
    [] s = "validation" -> {<<v, "(", "1/2/2024", " ", "1/3/2024", ")">> : v \in Validations}
                           \cup {<<v, "(", "1", " ", "1.5", ")">> : v \in Validations}
                           \cup {<<v, "(", "'", "x", "é", "'", ")">> : v \in Validations}
                           \cup {<<v, "(", "A1:B2", ")">> : v \in Validations}
                           \cup {<<v>> : v \in Validations}
    [] s = "keyvalue" -> {<<"a", "=", "1">>, <<"a", "=", "f", "(", "A1", ",", "DQ", "é", "DQ", ")">>}
    [] s = "existing" -> {<<"x", ",", "DQ", "y", "DQ", "NL", "é", ",", "NL", "=1">>}
    [] s = "arguments" -> {<<"main.csvpp", "-o", "out.csv", "-k", "a=1", "-s", "é", "-x", "1", "--safe", "-b">>,
                           <<"plain", "-o", "out.xlsx", "-n", "-v">>}

---------------------------------------------------------------------------
Init == /\ surface \in Surfaces
        /\ phase = "given"
        /\ edits = 0 /\ long = <<>>
        /\ \/ MaxLen > 0 /\ seeded = FALSE /\ toks = <<>>
           \/ MaxEdits > 0 /\ seeded = TRUE /\ toks \in Seeds(surface)

Append1 == /\ phase = "given" /\ ~seeded /\ Len(toks) < MaxLen
           /\ \E t \in Alphabet(surface) : toks' = Append(toks, t)
           /\ UNCHANGED <<surface, edits, seeded, phase, long>>

Before(i) == SubSeq(toks, 1, i - 1)
From(i) == SubSeq(toks, i, Len(toks))

Edit == /\ phase = "given" /\ seeded /\ edits < MaxEdits /\ long = <<>>
        /\ edits' = edits + 1
        /\ \/ \E i \in 1..Len(toks) : toks' = Before(i) \o From(i + 1)                        \* left out
           \/ \E i \in 1..Len(toks) : toks' = Before(i + 1) \o From(i)                        \* twice
           \/ \E i \in 1..Len(toks) : toks' = Before(i)                                       \* cut off
           \/ \E i \in 2..Len(toks) : toks' = From(i)
           \/ \E i \in 2..Len(toks) : toks' = Before(i - 1) \o <<toks[i], toks[i - 1]>> \o From(i + 1)
           \/ \E i \in 1..Len(toks), t \in Alphabet(surface) : toks' = Before(i) \o <<t>> \o From(i + 1)
           \/ \E i \in 1..Len(toks) + 1, t \in Alphabet(surface) : toks' = Before(i) \o <<t>> \o From(i)
        /\ UNCHANGED <<surface, seeded, phase, long>>

(* The i-th token, or one that's put before it, is a very long one.                                 *)
Stretch == /\ phase = "given" /\ seeded /\ edits >= MinEdits /\ long = <<>> /\ Lengths # {}
           /\ \E i \in 1..Len(toks), n \in Lengths, k \in 0..3, t \in {"", "x", "é", "EMOJI", " "} : long' = <<i, n, k, t>>
           /\ UNCHANGED <<surface, toks, edits, seeded, phase>>

(* It's given to csv++: what becomes of it isn't said here but that it becomes one of the two.      *)
Run == /\ phase = "given" /\ phase' = "running" /\ (Lengths # {} => long # <<>>)
       /\ UNCHANGED <<surface, toks, edits, seeded, long>>
End == /\ phase = "running" /\ phase' \in {"compiled", "rejected"}
       /\ UNCHANGED <<surface, toks, edits, seeded, long>>

Next == Append1 \/ Edit \/ Stretch \/ Run \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Run) /\ WF_vars(End)

---------------------------------------------------------------------------
TypeOK == phase \in {"given", "running", "compiled", "rejected"} /\ edits <= MaxEdits
Ends == (phase = "running") ~> (phase \in {"compiled", "rejected"})

Emitted == IF seeded THEN edits >= MinEdits ELSE Len(toks) > 0
Emit == (phase = "running" /\ Emitted) =>
        CSVWrite("%1$s", <<ToJson([surface |-> surface, toks |-> toks, long |-> long])>>, IOEnv.CASES)
=============================================================================
