------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* The options of rows and cells, and what becomes of them in a Google     *)
(* Sheet and in an Excel file.                                             *)
(*                                                                         *)
(* The text of a sheet of two rows is read from left to right.  In each of *)
(* the places that can have options the environment adds some of them, and *)
(* then goes on to the next one.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxOptions,   \* how many of them there can be in a sheet
          Choice,       \* which ones
          Bad           \* whether one of them can be wrong

-----------------------------------------------------------------------------
(* An option: what it's about, what it's called, how its value is written and what it means *)
Opt(attr, names, values) == {[attr |-> attr, name |-> n, text |-> v[1], val |-> v[2]] : n \in names, v \in values}

Same(S) == {<<s, s>> : s \in S}
Dates == {"2024-11-12", "11/12/2024", "11/12/24"}

\* validations: <<what is written, what it's called in a Google Sheet, its values, and in an Excel file the type,
\* operator and formulas>>.  @ is the cell, and N(date) its day in Excel
V(names, args, gs, gsvals, type, op, f1, f2) ==
    {[names |-> names, args |-> args, gs |-> gs, gsvals |-> gsvals, type |-> type, op |-> op, f1 |-> f1, f2 |-> f2]}
D1 == "2024-11-12"
N1 == "45608"
D2 == "2025-01-31"
N2 == "45688"
Validations == UNION {
    V({"custom", "c"}, "('=A1>2')", "CUSTOM_FORMULA", <<"=A1>2">>, "Custom", "-", "=A1>2", ""),
    V({"date_after", "date_gt"}, "(2024-11-12)", "DATE_AFTER", <<D1>>, "Date", "GreaterThan", N1, ""),
    V({"date_after"}, "(11/12/24)", "DATE_AFTER", <<D1>>, "Date", "GreaterThan", N1, ""),
    V({"date_before", "date_lt"}, "(11/12/2024)", "DATE_BEFORE", <<D1>>, "Date", "LessThan", N1, ""),
    V({"date_between", "date_btwn"}, "(2024-11-12 1/31/2025)", "DATE_BETWEEN", <<D1, D2>>, "Date", "Between", N1, N2),
    V({"date_equal_to", "date_eq"}, "(2025-01-31)", "DATE_EQ", <<D2>>, "Date", "Equal", N2, ""),
    V({"date_is_valid", "is_date"}, "", "DATE_IS_VALID", <<>>, "Custom", "-", "=ISNUMBER(DAY(@))", ""),
    V({"date_not_between", "date_nbtwn"}, "(2024-11-12 2025-01-31)", "DATE_NOT_BETWEEN", <<D1, D2>>, "Date", "NotBetween", N1, N2),
    V({"date_on_or_after", "date_gte"}, "(2024-11-12)", "DATE_ON_OR_AFTER", <<D1>>, "Date", "GreaterThanOrEqual", N1, ""),
    V({"date_on_or_before", "date_lte"}, "(2024-11-12)", "DATE_ON_OR_BEFORE", <<D1>>, "Date", "LessThanOrEqual", N1, ""),
    V({"in_list"}, "(1 'b c' d)", "ONE_OF_LIST", <<"1", "b c", "d">>, "List", "-", "\"1, b c, d\"", ""),
    V({"in_range"}, "(B1:C5)", "ONE_OF_RANGE", <<"B1:C5">>, "List", "-", "B1:C5", ""),
    V({"is_valid_email", "is_email"}, "", "TEXT_IS_EMAIL", <<>>, "Custom", "-", "=ISNUMBER(MATCH(\"*@*.?*\", @, 0))", ""),
    V({"is_valid_url", "is_url"}, "", "TEXT_IS_URL", <<>>, "Custom", "-", "=RegExpMatch(@, \"^http\")", ""),
    V({"number_between", "num_btwn", "number_btwn"}, "(-3 50)", "NUMBER_BETWEEN", <<"-3", "50">>, "Decimal", "Between", "-3", "50"),
    V({"number_equal_to", "num_eq", "number_eq"}, "(7)", "NUMBER_EQ", <<"7">>, "Decimal", "Equal", "7", ""),
    V({"number_greater_than", "num_gt", "number_gt"}, "(7)", "NUMBER_GREATER", <<"7">>, "Decimal", "GreaterThan", "7", ""),
    V({"number_greater_than_or_equal_to", "num_gte", "number_gte"}, "(7)", "NUMBER_GREATER_THAN_EQ", <<"7">>, "Decimal", "GreaterThanOrEqual", "7", ""),
    V({"number_less_than", "num_lt", "number_lt"}, "(7)", "NUMBER_LESS", <<"7">>, "Decimal", "LessThan", "7", ""),
    V({"number_less_than_or_equal_to", "num_lte", "number_lte"}, "(7)", "NUMBER_LESS_THAN_EQ", <<"7">>, "Decimal", "LessThanOrEqual", "7", ""),
    V({"number_not_between", "num_nbtwn", "number_nbtwn"}, "(1 2)", "NUMBER_NOT_BETWEEN", <<"1", "2">>, "Decimal", "NotBetween", "1", "2"),
    V({"number_not_equal_to", "num_neq", "number_neq"}, "(0)", "NUMBER_NOT_EQ", <<"0">>, "Decimal", "NotEqual", "0", ""),
    V({"text_contains"}, "('foo bar')", "TEXT_CONTAINS", <<"foo bar">>, "Custom", "-", "=ISNUMBER(SEARCH(\"foo bar\", @))", ""),
    V({"text_does_not_contain"}, "(foo)", "TEXT_NOT_CONTAINS", <<"foo">>, "Custom", "-", "=NOT(ISNUMBER(SEARCH(\"foo\", @)))", ""),
    V({"text_equal_to", "text_eq"}, "('a,b')", "TEXT_EQ", <<"a,b">>, "Custom", "-", "@ = \"a,b\"", "")}

\* (the value of a validation is what identifies it)
Id(v) == v.gs \o v.args
Validation(id) == CHOOSE v \in Validations : Id(v) = id

Hex == {<<"#112233", "112233">>, <<"a0b1c2", "A0B1C2">>, <<"#abc", "AABBCC">>, <<"F00", "FF0000">>}
All == UNION {
    Opt("halign", {"halign", "ha"}, Same({"left", "center", "right"}) \cup {<<"l", "left">>, <<"c", "center">>, <<"r", "right">>}),
    Opt("valign", {"valign", "va"}, Same({"top", "center", "bottom"}) \cup {<<"t", "top">>, <<"c", "center">>, <<"b", "bottom">>}),
    Opt("wrap", {"wrap", "w"}, Same({"wrap", "overflow", "clip"}) \cup {<<"w", "wrap">>, <<"o", "overflow">>, <<"c", "clip">>}),
    Opt("format", {"numberformat", "nf"}, Same({"currency", "date", "datetime", "number", "percent", "text", "time", "scientific"})
        \cup {<<"c", "currency">>, <<"d", "date">>, <<"dt", "datetime">>, <<"n", "number">>, <<"p", "percent">>, <<"t", "time">>, <<"s", "scientific">>}),
    Opt("borderstyle", {"borderstyle", "bs"}, Same({"dashed", "dotted", "double", "solid", "solid_medium", "solid_thick"})
        \cup {<<"dash", "dashed">>, <<"dot", "dotted">>, <<"dbl", "double">>, <<"1", "solid">>, <<"2", "solid_medium">>, <<"3", "solid_thick">>}),
    Opt("border", {"border", "b"}, Same({"all", "top", "bottom", "left", "right"})
        \cup {<<"a", "all">>, <<"t", "top">>, <<"b", "bottom">>, <<"l", "left">>, <<"r", "right">>}),
    Opt("text", {"text", "t"}, Same({"bold", "italic", "strikethrough", "underline"})
        \cup {<<"b", "bold">>, <<"i", "italic">>, <<"s", "strikethrough">>, <<"u", "underline">>}),
    Opt("color", {"color", "c"}, Hex),
    Opt("bordercolor", {"bordercolor", "bc"}, Hex),
    Opt("fontcolor", {"fontcolor", "fc"}, Hex),
    Opt("fontfamily", {"fontfamily", "ff"}, {<<"Arial", "Arial">>, <<"'Times New Roman'", "Times New Roman">>}),
    Opt("fontsize", {"fontsize", "fs"}, Same({"1", "12", "255"})),
    Opt("lock", {"lock", "l"}, {<<"", "y">>}),
    Opt("note", {"note", "n"}, {<<"'hi'", "hi">>, <<"'a ]] / b=c, d'", "a ]] / b=c, d">>}),
    UNION {Opt("validation", {"validate", "dv"}, {<<n \o v.args, Id(v)>> : n \in v.names}) : v \in Validations}}

\* each value once, and of each attribute two values
Short(o) == o.name \in {"b", "t", "c", "l", "n", "w", "bc", "bs", "dv", "fc", "ff", "fs", "ha", "nf", "va"}
Two == {"left", "right", "top", "bottom", "overflow", "clip", "date", "percent", "dashed", "solid_thick", "all", "bold", "underline", "#112233", "a0b1c2",
        "Arial", "'Times New Roman'", "12", "255", "", "'hi'", "'a ]] / b=c, d'", "is_email", "num_gt(7)", "date_lt(11/12/2024)"}
Few == {"right", "overflow", "percent", "dashed", "all", "bold", "italic", "#112233", "12", "'hi'", "num_gt(7)"}

Options == CASE Choice = "all" -> All
             [] Choice = "two" -> {o \in All : Short(o) /\ o.text \in Two}
             [] Choice = "few" -> {o \in All : Short(o) /\ o.text \in Few}

BadOptions == {"ha=x", "halign", "va=left", "w=y", "nf=z", "bs=4", "b=x", "t=z", "c=red", "c=#12", "fc=#12345", "bc=#1122334", "c=", "ff=", "fs=foo", "fs=300", "fs=-1",
               "foo=1", "Halign=left", "n", "dv=nope", "dv=num_eq(x)", "dv=num_btwn(1)", "dv=num_eq(1 2)", "dv=date_eq(foo)", "dv=in_list()", "dv=num_eq(1", "=l",
               "ha=l va", "dv=date_eq(2024-13-45)", "!", "[[t=b]]", "", "var", "v=", "l=x"}
\* more than the options of a place is wrong: TWICE there are several of them, ROW ones which are not on the first
\* cell, and OPEN ones which don't end
BadAt(p) == BadOptions \cup (CASE p \in {"row 1", "row 2"} -> {"fill=x", "fill=", "f=-1"}
                               [] p \in {"cell 1 1", "cell 2 1"} -> {"fill=2", "f", "TWICE", "OPEN"}
                               [] OTHER -> {"fill=2", "f", "TWICE", "OPEN", "ROW"})

-----------------------------------------------------------------------------
VARIABLES trace,    \* what was written so far: <<place, option>>
          place,
          row,      \* what holds for the row which is being read
          cell,     \* and for the cell
          cells,    \* those which have been read
          fill,     \* how often the first row is repeated
          bad       \* <<place, what's wrong>>

vars == <<trace, place, row, cell, cells, fill, bad>>

Default == [halign |-> "center", valign |-> "center", wrap |-> "wrap", format |-> "text", borderstyle |-> "solid", border |-> {}, text |-> {},
            color |-> "", bordercolor |-> "", fontcolor |-> "", fontfamily |-> "", fontsize |-> "", lock |-> "", note |-> "", validation |-> ""]

Sides(v) == IF v = "all" THEN {"left", "right", "top", "bottom"} ELSE {v}

Apply(a, o) == CASE o.attr = "border" -> [a EXCEPT !.border = @ \cup Sides(o.val)]
                 [] o.attr = "text"   -> [a EXCEPT !.text = @ \cup {o.val}]
                 [] OTHER             -> [a EXCEPT ![o.attr] = o.val]

Places == <<"row 1", "cell 1 1", "cell 1 2", "row 2", "cell 2 1", "cell 2 2", "end">>
IsRow == Places[place] \in {"row 1", "row 2"}
AtEnd == Places[place] = "end"

Init == /\ trace = <<>> /\ place = 1 /\ row = Default /\ cell = Default /\ cells = <<>> /\ bad = <<>>
        /\ fill \in {1, 3}

Write(o) == /\ ~AtEnd /\ Len(trace) < MaxOptions
            /\ trace' = Append(trace, <<Places[place], o>>)
            /\ IF IsRow THEN row' = Apply(row, o) /\ UNCHANGED cell ELSE cell' = Apply(cell, o) /\ UNCHANGED row
            /\ UNCHANGED <<place, cells, fill, bad>>

\* something wrong is all there is to the options of this place
WriteBad(b) == /\ ~AtEnd /\ Bad /\ bad = <<>>
               /\ ~\E k \in 1..Len(trace) : trace[k][1] = Places[place]
               /\ bad' = <<Places[place], b>>
               /\ UNCHANGED <<trace, place, row, cell, cells, fill>>

Advance == /\ ~AtEnd
           /\ place' = place + 1
           /\ IF IsRow THEN cell' = row /\ UNCHANGED <<row, cells>>
              ELSE /\ cells' = Append(cells, cell)
                   \* a new row starts over
                   /\ IF Places[place + 1] = "row 2" THEN row' = Default /\ cell' = Default ELSE cell' = row /\ UNCHANGED row
           /\ UNCHANGED <<trace, fill, bad>>

Next == Advance \/ (\E o \in Options : Write(o)) \/ (\E b \in BadAt(Places[place]) : WriteBad(b))
Spec == Init /\ [][Next]_vars

\* to simulate it, with as many options in each of the places
Some(S, t) == {RandomElement(IF Len(t) < 0 THEN {} ELSE S)}     \* (a new one in every state)
SimNext == Advance \/ (\E o \in Some(Options, trace) : Write(o)) \/ (\E b \in Some(BadAt(Places[place]), trace) : WriteBad(b))
SimSpec == Init /\ [][SimNext]_vars

-----------------------------------------------------------------------------
(* The same, but not by reading it from left to right: the option which was given last for the cell decides, *)
(* then the one which was given last for the row                                                            *)
OfPlace(p, a) == SelectSeq(trace, LAMBDA t : t[1] = p /\ t[2].attr = a)
Values(s, f(_)) == UNION {f(s[k][2].val) : k \in 1..Len(s)}
One(v) == {v}
Expected(r, c, a) ==
    LET ofrow == OfPlace(r, a)
        ofcell == OfPlace(c, a)
    IN CASE a = "border" -> Values(ofrow, Sides) \cup Values(ofcell, Sides)
         [] a = "text" -> Values(ofrow, One) \cup Values(ofcell, One)
         [] OTHER -> IF ofcell # <<>> THEN ofcell[Len(ofcell)][2].val
                     ELSE IF ofrow # <<>> THEN ofrow[Len(ofrow)][2].val
                     ELSE Default[a]

Inherited == AtEnd => /\ Len(cells) = 4
                      /\ \A k \in 1..4 : \A a \in DOMAIN Default :
                            cells[k][a] = Expected(<<"row 1", "row 1", "row 2", "row 2">>[k],
                                                   <<"cell 1 1", "cell 1 2", "cell 2 1", "cell 2 2">>[k], a)

\* nothing is applied to a cell which it wasn't written for
Only(places) == \A t \in 1..Len(trace) : trace[t][1] \in places
Isolated == AtEnd => /\ (Only({"row 1", "cell 1 1", "cell 1 2"}) => cells[3] = Default /\ cells[4] = Default)
                     /\ (Only({"cell 1 1", "row 2", "cell 2 1", "cell 2 2"}) => cells[2] = Default)

-----------------------------------------------------------------------------
(* In a Google Sheet: the values of the API *)
HAlign == [left |-> "LEFT", center |-> "CENTER", right |-> "RIGHT"]
VAlign == [top |-> "TOP", center |-> "MIDDLE", bottom |-> "BOTTOM"]
Wrap   == [wrap |-> "WRAP", overflow |-> "OVERFLOW_CELL", clip |-> "CLIP"]
Format == [currency |-> "CURRENCY", date |-> "DATE", datetime |-> "DATE_TIME", number |-> "NUMBER", percent |-> "PERCENT", text |-> "TEXT",
           time |-> "TIME", scientific |-> "SCIENTIFIC"]
Style  == [dashed |-> "DASHED", dotted |-> "DOTTED", double |-> "DOUBLE", solid |-> "SOLID", solid_medium |-> "SOLID_MEDIUM", solid_thick |-> "SOLID_THICK"]

GSheets(a) ==
    [halign |-> HAlign[a.halign], valign |-> VAlign[a.valign], wrap |-> Wrap[a.wrap], format |-> Format[a.format],
     borders |-> [s \in a.border |-> <<Style[a.borderstyle], a.bordercolor>>],
     color |-> a.color, text |-> [t \in a.text |-> TRUE], fontcolor |-> a.fontcolor, fontfamily |-> a.fontfamily, fontsize |-> a.fontsize, note |-> a.note,
     validation |-> IF a.validation = "" THEN <<>> ELSE LET v == Validation(a.validation) IN <<v.gs>> \o v.gsvals]

(* In an Excel file *)
XHAlign == [left |-> "Left", center |-> "Center", right |-> "Right"]
XVAlign == [top |-> "Top", center |-> "Center", bottom |-> "Bottom"]
XFormat == [currency |-> "$#,##0_-", date |-> "yyyy-mm-dd", datetime |-> "d/m/yy h:mm", number |-> "0", percent |-> "0%", text |-> "@",
            time |-> "h:mm AM/PM", scientific |-> "0.00E+00"]
XStyle  == [dashed |-> "dashed", dotted |-> "dotted", double |-> "double", solid |-> "thin", solid_medium |-> "medium", solid_thick |-> "thick"]

Excel(a) ==
    [halign |-> XHAlign[a.halign], valign |-> XVAlign[a.valign], wrap |-> a.wrap = "wrap", format |-> XFormat[a.format],
     borders |-> [s \in a.border |-> <<XStyle[a.borderstyle], a.bordercolor>>],
     color |-> a.color, text |-> [t \in a.text |-> TRUE], fontcolor |-> a.fontcolor, fontfamily |-> a.fontfamily, fontsize |-> a.fontsize, note |-> a.note,
     validation |-> IF a.validation = "" THEN <<>> ELSE LET v == Validation(a.validation) IN <<v.type, v.op, v.f1, v.f2>>]

Emit == AtEnd =>
    CSVWrite("%1$s", <<ToJson([
        trace |-> [k \in 1..Len(trace) |-> <<trace[k][1], trace[k][2].name, trace[k][2].text>>],
        fill |-> fill, bad |-> bad,
        cells |-> IF bad # <<>> THEN <<>> ELSE [k \in 1..4 |-> [gs |-> GSheets(cells[k]), xl |-> Excel(cells[k])]]])>>, IOEnv.CASES)
=============================================================================
