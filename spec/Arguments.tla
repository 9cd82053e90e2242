------------------------------ MODULE Arguments ------------------------------
(***************************************************************************)
(* The values which options are given: how they are written, character by  *)
(* character, and what they stand for in a Google Sheet and an Excel file. *)
(* (What the options themselves do is in Options.tla.)                     *)
(*                                                                         *)
(* ` is a character outside of the basic plane, | a line break and @ the   *)
(* cell that has the option.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Kinds,      \* of values
          MaxLength   \* of a text or color

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digit[n + 1] ELSE Dec(n \div 10) \o Digit[(n % 10) + 1]
Pad2(n) == IF n < 10 THEN "0" \o Dec(n) ELSE Dec(n)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))

-----------------------------------------------------------------------------
(* The calendar *)
Years == {1900, 1904, 1970, 1999, 2000, 2023, 2024, 2068, 2100, 9999}
Leap(y) == (y % 4) = 0 /\ ((y % 100) # 0 \/ (y % 400) = 0)
DaysIn(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Valid(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
LeapsBefore(y) == ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 365 * (y - 1900) + LeapsBefore(y) - LeapsBefore(1900) ELSE DaysBefore(y, m - 1) + DaysIn(y, m - 1)
\* the first day of 1900 is 1, and for Excel there was a 29th of February in that year
Serial(y, m, d) == LET n == DaysBefore(y, m) + d IN IF n > 59 THEN n + 1 ELSE n
\* the day after
Next1(y, m, d) == IF d < DaysIn(y, m) THEN <<y, m, d + 1>> ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>

Iso(y, m, d) == Dec(y) \o "-" \o Pad2(m) \o "-" \o Pad2(d)
Spelled(y, m, d) == {Iso(y, m, d), Dec(m) \o "/" \o Dec(d) \o "/" \o Dec(y), Pad2(m) \o "/" \o Pad2(d) \o "/" \o Dec(y)}
               \cup (IF y \in 1970..2068 THEN {Dec(m) \o "/" \o Dec(d) \o "/" \o Pad2(y % 100), Pad2(m) \o "/" \o Pad2(d) \o "/" \o Pad2(y % 100)} ELSE {})

-----------------------------------------------------------------------------
(* Texts.  What has a meaning in a quoted text is escaped; in a formula of Excel quotes are doubled *)
Chars == {"a", "\"", "'", "\\", "`", ",", "]", " ", "|", "/"}
Written(c) == IF c \in {"'", "\\"} THEN "\\" \o c ELSE c
Doubled(c) == IF c = "\"" THEN "\"\"" ELSE c
TextOptions == {"note", "ff", "custom", "contains", "contains not", "equal", "list"}
\* Excel separates the values of a list by commas, and takes whitespace around them away
Fits(s, o) == CASE o = "list" -> \A k \in 1..Len(s) : s[k] \notin {",", "|"}
                [] o = "ff" -> Len(s) > 0 /\ \A k \in 1..Len(s) : s[k] \notin {"|", "'", "\""}
                [] o = "note" -> s # <<>>
                [] o = "custom" -> s # <<>> /\ {s[1], s[Len(s)]} \cap {" ", "|"} = {}
                [] OTHER -> TRUE
Q(s) == "\"" \o Cat([k \in 1..Len(s) |-> Doubled(s[k])]) \o "\""
OfText(s, o) ==
    LET w == "'" \o Cat([k \in 1..Len(s) |-> Written(s[k])]) \o "'"
        t == Cat(s)
        R(text, attr, gs, xl) == [text |-> text, attr |-> attr, gs |-> gs, xl |-> xl, ok |-> TRUE]
    IN CASE o = "note" -> R("n=" \o w, "note", t, t)
         [] o = "ff" -> R("ff=" \o w, "fontfamily", t, t)
         [] o = "custom" -> R("dv=custom(" \o w \o ")", "validation", <<"CUSTOM_FORMULA", t>>, <<"Custom", "-", t, "">>)
         [] o = "contains" -> R("dv=text_contains(" \o w \o ")", "validation", <<"TEXT_CONTAINS", t>>, <<"Custom", "-", "=ISNUMBER(SEARCH(" \o Q(s) \o ", @))", "">>)
         [] o = "contains not" -> R("dv=text_does_not_contain(" \o w \o ")", "validation", <<"TEXT_NOT_CONTAINS", t>>,
                                    <<"Custom", "-", "=NOT(ISNUMBER(SEARCH(" \o Q(s) \o ", @)))", "">>)
         [] o = "equal" -> R("dv=text_eq(" \o w \o ")", "validation", <<"TEXT_EQ", t>>, <<"Custom", "-", "@ = " \o Q(s), "">>)
         [] o = "list" -> R("dv=in_list(" \o w \o " 2 -1.5 x)", "validation", <<"ONE_OF_LIST", t, "2", "-1.5", "x">>,
                            <<"List", "-", "\"" \o Cat([k \in 1..Len(s) |-> Doubled(s[k])]) \o ", 2, -1.5, x\"", "">>)

-----------------------------------------------------------------------------
(* Colors *)
Hex == {"0", "7", "9", "a", "e", "C", "F"}
Upper == [x \in Hex |-> CASE x = "a" -> "A" [] x = "e" -> "E" [] OTHER -> x]
ColorOptions == {<<"c", "color">>, <<"fc", "fontcolor">>}
OfColor(s, hash, o) ==
    LET t == o[1] \o "=" \o (IF hash THEN "#" ELSE "") \o Cat(s)
        ok == Len(s) \in {3, 6} /\ \A k \in 1..Len(s) : s[k] # "g"
        v == IF ~ok THEN "" ELSE IF Len(s) = 3 THEN Cat([k \in 1..3 |-> Upper[s[k]] \o Upper[s[k]]]) ELSE Cat([k \in 1..6 |-> Upper[s[k]]])
    IN [text |-> t, attr |-> o[2], gs |-> v, xl |-> v, ok |-> ok]

(* Numbers *)
Numbers == {<<"0", "0">>, <<"7", "7">>, <<"-12", "-12">>, <<"007", "7">>, <<"123456789012345678", "123456789012345678">>, <<"4294967296", "4294967296">>,
            <<"9223372036854775807", "9223372036854775807">>, <<"-9223372036854775808", "-9223372036854775808">>, <<"9223372036854775808", "">>,
            <<"--1", "">>, <<"1-", "">>, <<"1.2.3", "">>, <<"-", "">>, <<"x", "">>, <<"", "">>}
NumberOptions == {<<"num_eq", "NUMBER_EQ", "Equal">>, <<"num_gt", "NUMBER_GREATER", "GreaterThan">>, <<"num_lte", "NUMBER_LESS_THAN_EQ", "LessThanOrEqual">>}

-----------------------------------------------------------------------------
VARIABLES kind, s, hash, done
vars == <<kind, s, hash, done>>

None == [text |-> ""]
Init == kind \in Kinds /\ s = <<>> /\ hash \in (IF kind = "color" THEN BOOLEAN ELSE {FALSE}) /\ done = None

\* one more character
Write == /\ done = None /\ Len(s) < MaxLength
         /\ \E c \in CASE kind = "text" -> Chars [] kind = "color" -> Hex \cup {"g"} [] OTHER -> {} : s' = Append(s, c)
         /\ UNCHANGED <<kind, hash, done>>

End == /\ done = None
       /\ CASE kind = "text" -> \E o \in TextOptions : Fits(s, o) /\ done' = OfText(s, o)
            [] kind = "color" -> s # <<>> /\ \E o \in ColorOptions : done' = OfColor(s, hash, o)
            [] kind = "size" -> \E n \in 1..300 : done' = [text |-> "fs=" \o Dec(n), attr |-> "fontsize", gs |-> Dec(n), xl |-> Dec(n), ok |-> n < 256]
            [] kind = "number" -> \E o \in NumberOptions, n \in Numbers :
                   done' = [text |-> "dv=" \o o[1] \o "(" \o n[1] \o ")", attr |-> "validation", gs |-> <<o[2], n[2]>>, xl |-> <<"Decimal", o[3], n[2], "">>, ok |-> n[2] # ""]
            [] kind = "date" -> \E y \in Years, m \in 0..13, d \in {0, 1, 2, 9, 28, 29, 30, 31, 32} : \E t \in Spelled(y, m, d) :
                   LET ok == Valid(y, m, d)
                   IN done' = [text |-> "dv=date_eq(" \o t \o ")", attr |-> "validation", ok |-> ok,
                               gs |-> IF ok THEN <<"DATE_EQ", Iso(y, m, d)>> ELSE <<>>,
                               xl |-> IF ok THEN <<"Date", "Equal", Dec(Serial(y, m, d)), "">> ELSE <<>>]
       /\ UNCHANGED <<kind, s, hash>>

Next == Write \/ End
Spec == Init /\ [][Next]_vars

\* one day after the other, with one that wasn't; and these are known
ASSUME \A y \in 1900..2030, m \in 1..12 : \A d \in 1..DaysIn(y, m) :
    LET n == Next1(y, m, d) IN Serial(n[1], n[2], n[3]) - Serial(y, m, d) = IF <<y, m, d>> = <<1900, 2, 28>> THEN 2 ELSE 1
ASSUME Serial(1900, 1, 1) = 1 /\ Serial(2024, 11, 12) = 45608 /\ Serial(9999, 12, 31) = 2958465

\* nothing but a text can be as long as one likes
Bounded == (done # None /\ kind # "text" /\ done.ok) => Len(s) <= 6

Emit == done # None => CSVWrite("%1$s", <<ToJson([kind |-> kind, a |-> done])>>, IOEnv.CASES)
=============================================================================
