--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line of csv++: arguments are given one after the other,     *)
(* each option in any of the forms there are for it.  The state is what    *)
(* was given so far (the arguments themselves) and what it means.          *)
(*                                                                         *)
(* Arguments are sequences of letters as far as clusters of short options  *)
(* go, otherwise strings which are written next to each other.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxItems,     \* arguments (with their values) other than those it starts with
          Based,        \* does it start with an input and an output?
          Mistakes      \* can there be mistakes?

VARIABLES argv,         \* sequence of arguments, each is a sequence of the strings it consists of
          conf,         \* option -> sequence of the values it was given
          pending,      \* may the next one be more letters of a cluster ("cluster"), more key/values ("kv"), or neither ("")
          positional,   \* was there a -- ?
          wrong,        \* usage errors
          help,         \* was help or the version asked for?
          items, done
vars == <<argv, conf, pending, positional, wrong, help, items, done>>

Flags == {"backup", "no-cache", "safe", "verbose"}
Valued == {"output-filename", "google-sheet-id", "google-account-credentials", "sheet-name", "x-offset", "y-offset"}
Short(o) == CASE o = "backup" -> "b" [] o = "safe" -> "s" [] o = "verbose" -> "v" [] o = "output-filename" -> "o"
              [] o = "google-sheet-id" -> "g" [] o = "sheet-name" -> "n" [] o = "x-offset" -> "x" [] o = "y-offset" -> "y"
              [] o = "key-values" -> "k"
              [] OTHER -> ""

Good(o) == CASE o = "output-filename" -> {"out.csv", "out.xlsx", "out.CSV", "d/o.ut.csv", "out.xltm", "out.ods"}
             [] o = "google-sheet-id" -> {"abc-1_X", "Z"}
             [] o = "google-account-credentials" -> {"creds.json"}
             [] o = "sheet-name" -> {"tab", "a=b", "T 2", "main"}
             [] o \in {"x-offset", "y-offset"} -> {"0", "3", "017", "4294967295"}
\* those clap doesn't accept, and those csv++ doesn't
BadUsage(o) == IF o \in {"x-offset", "y-offset"} THEN {"x", "1.5", "4294967296"} ELSE {}
BadValue(o) == CASE o = "output-filename" -> {"out.txt", "out", "csv", "out.csv.gz"}
                 [] o = "google-sheet-id" -> {"a/b", "a b", "a.b"}
                 [] OTHER -> {}
KeyValues == {<<"a", "1">>, <<"b", "a">>, <<"a", "x=y">>, <<"b", "f(1, 2)">>, <<"a", "(1 + 2)">>}
BadKeyValues == {"a", "main", "a=)", "b="}

Num(s) == CASE s = "0" -> 0 [] s = "3" -> 3 [] s = "017" -> 17 [] OTHER -> -1   \* -1 for the largest there is

Empty == [o \in Flags \cup Valued \cup {"key-values", "input", "bad-key-values"} |-> <<>>]

Init == /\ argv = IF Based THEN <<<<"main.csvpp">>, <<"-", "o">>, <<"out.csv">>>> ELSE <<>>
        /\ conf = IF Based THEN [Empty EXCEPT !["input"] = <<"main.csvpp">>, !["output-filename"] = <<"out.csv">>] ELSE Empty
        /\ pending = "" /\ positional = FALSE /\ wrong = {} /\ help = FALSE
        /\ items = 0 /\ done = FALSE

Give(o, v) == conf' = [conf EXCEPT ![o] = Append(@, v)]
Last == argv[Len(argv)]
Glued(s) == Append(SubSeq(argv, 1, Len(argv) - 1), Last \o s)
More0 == ~done /\ items < MaxItems
More == More0 /\ items' = items + 1 /\ UNCHANGED <<done, help>>
Options == More /\ ~positional /\ UNCHANGED positional

Flag(o) ==
    /\ Options /\ Give(o, "") /\ UNCHANGED wrong
    /\ \/ argv' = Append(argv, <<"--", o>>) /\ pending' = ""
       \/ Short(o) # "" /\ argv' = Append(argv, <<"-", Short(o)>>) /\ pending' = "cluster"
       \/ Short(o) # "" /\ pending = "cluster" /\ argv' = Glued(<<Short(o)>>) /\ UNCHANGED pending

Value(o, v) ==
    /\ Options /\ Give(o, v) /\ pending' = ""
    /\ wrong' = IF v \in BadUsage(o) THEN wrong \cup {"value"} ELSE wrong
    /\ \/ argv' = argv \o <<<<"--", o>>, <<v>>>>
       \/ argv' = Append(argv, <<"--", o, "=", v>>)
       \/ Short(o) # "" /\ \/ argv' = argv \o <<<<"-", Short(o)>>, <<v>>>>
                           \/ argv' = Append(argv, <<"-", Short(o), v>>)
                           \/ argv' = Append(argv, <<"-", Short(o), "=", v>>)
                           \/ pending = "cluster" /\ argv' = Append(Glued(<<Short(o)>>), <<v>>)
                           \/ pending = "cluster" /\ argv' = Glued(<<Short(o), v>>)

KV(kv) == kv[1] \o "=" \o kv[2]

\* an argument which isn't an option is another key/value after those of -k
KeyValue(kv) ==
    /\ Options /\ Give("key-values", kv) /\ UNCHANGED wrong
    /\ \/ /\ pending' = "kv"
          /\ \/ argv' = argv \o <<<<"-", "k">>, <<KV(kv)>>>>
             \/ argv' = argv \o <<<<"--", "key-values">>, <<KV(kv)>>>>
             \/ pending = "cluster" /\ argv' = Append(Glued(<<"k">>), <<KV(kv)>>)
             \/ pending = "kv" /\ argv' = Append(argv, <<KV(kv)>>)
       \/ /\ pending' = ""
          /\ \/ argv' = Append(argv, <<"--", "key-values", "=", KV(kv)>>)
             \/ argv' = Append(argv, <<"-", "k", KV(kv)>>)
             \/ argv' = Append(argv, <<"-", "k", "=", KV(kv)>>)

BadKeyValue(s) ==
    /\ Options /\ Give("bad-key-values", s) /\ UNCHANGED wrong /\ pending' = "kv"
    /\ argv' = argv \o <<<<"-", "k">>, <<s>>>>

NoKeyValue == /\ Options /\ UNCHANGED <<conf, wrong>> /\ pending' = "kv" /\ argv' = Append(argv, <<"-", "k">>)

Input(f) ==
    /\ More /\ argv' = Append(argv, <<f>>) /\ UNCHANGED <<positional, wrong>>
    /\ IF pending = "kv" /\ ~positional
       THEN Give("bad-key-values", f) /\ UNCHANGED pending
       ELSE Give("input", f) /\ pending' = ""

EndOfOptions ==
    /\ More /\ ~positional /\ positional' = TRUE /\ argv' = Append(argv, <<"--">>) /\ pending' = ""
    /\ UNCHANGED <<conf, wrong>>

Unknown(u) == /\ Options /\ argv' = Append(argv, u) /\ wrong' = wrong \cup {"unknown"} /\ pending' = "" /\ UNCHANGED conf
NoValue(o) == /\ More0 /\ ~positional /\ items' = MaxItems /\ argv' = Append(argv, <<"--", o>>)
              /\ wrong' = wrong \cup {"no value"} /\ UNCHANGED <<conf, pending, positional, help, done>>

\* asking for help, or the version, is the end of it, unless there was a mistake before
Help(h) == /\ More0 /\ ~positional /\ help' = TRUE /\ items' = MaxItems
           /\ argv' = IF h \in {"h", "V"} /\ pending = "cluster" THEN Glued(<<h>>)
                      ELSE Append(argv, IF h \in {"h", "V"} THEN <<"-", h>> ELSE <<"--", h>>)
           /\ UNCHANGED <<conf, pending, positional, wrong, done>>

End == /\ ~done /\ items > 0 /\ done' = TRUE /\ UNCHANGED <<argv, conf, pending, positional, wrong, help, items>>

Next == \/ \E o \in Flags : Flag(o)
        \/ \E o \in Valued : \E v \in Good(o) \cup (IF Mistakes THEN BadUsage(o) \cup BadValue(o) ELSE {}) : Value(o, v)
        \/ \E kv \in KeyValues : KeyValue(kv)
        \/ \E h \in {"h", "help", "V", "version"} : Help(h)
        \/ NoKeyValue \/ EndOfOptions
        \/ \E f \in {"main.csvpp", "d/a.b.csvpp"} : Input(f)
        \/ Mistakes /\ \/ \E s \in BadKeyValues : BadKeyValue(s)
                       \/ \E u \in {<<"--", "nope">>, <<"-", "z">>, <<"--", "safe", "=", "1">>, <<"--", "output">>} : Unknown(u)
                       \/ \E o \in Valued : NoValue(o)
                       \/ Input("none.csvpp")
        \/ End

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* what it means *)

Once(o) == Len(conf[o]) <= 1
Early == \/ wrong # {}
         \/ \E o \in {"backup", "no-cache", "safe"} \cup Valued : ~Once(o)
         \/ Len(conf["input"]) > 1
Usage == \/ Early
         \/ Len(conf["input"]) # 1
         \/ conf["output-filename"] # <<>> /\ conf["google-sheet-id"] # <<>>

Of(o, default) == IF conf[o] = <<>> THEN default ELSE conf[o][1]
Output == IF conf["google-sheet-id"] # <<>>
          THEN LET id == conf["google-sheet-id"][1] IN IF id \in BadValue("google-sheet-id") THEN <<"none", "">> ELSE <<"google", id>>
          ELSE LET f == Of("output-filename", "") IN
               CASE f \in {"out.csv", "out.CSV", "d/o.ut.csv"} -> <<"csv", f>>
                 [] f \in {"out.xlsx", "out.xltm"} -> <<"excel", f>>
                 [] f = "out.ods" -> <<"ods", f>>
                 [] OTHER -> <<"none", "">>

Stem(f) == CASE f = "main.csvpp" -> "main" [] f = "d/a.b.csvpp" -> "a.b" [] f = "none.csvpp" -> "none"

\* the last one of each name counts
KeyValuesMeant == LET kvs == conf["key-values"] IN
    {kvs[i] : i \in {j \in DOMAIN kvs : \A k \in (j + 1)..Len(kvs) : kvs[k][1] # kvs[j][1]}}

Fails == \/ conf["bad-key-values"] # <<>>
         \/ Len(conf["verbose"]) > 4
         \/ Output[1] = "none"

Status == IF help /\ ~Early THEN "help" ELSE IF Usage THEN "usage" ELSE IF Fails THEN "fails" ELSE "ok"

Meant == [output |-> Output,
          input |-> conf["input"][1],
          backup |-> conf["backup"] # <<>>,
          safe |-> conf["safe"] # <<>>,
          cache |-> conf["no-cache"] = <<>>,
          verbosity |-> Len(conf["verbose"]),
          credentials |-> Of("google-account-credentials", ""),
          sheet |-> Of("sheet-name", Stem(conf["input"][1])),
          x |-> Num(Of("x-offset", "0")), y |-> Num(Of("y-offset", "0")),
          kv |-> KeyValuesMeant]

(* reading the arguments from left to right, which is independent of how they were written *)
RECURSIVE Concat(_)
Concat(a) == IF a = <<>> THEN "" ELSE Head(a) \o Concat(Tail(a))
Args == [i \in DOMAIN argv |-> Concat(argv[i])]

\* an option which wasn't given is never there
NothingGiven == (conf = Empty /\ wrong = {} /\ ~help) => \A i \in DOMAIN argv : argv[i] \in {<<"--">>, <<"-", "k">>}
\* each of the arguments is accounted for
Accounted == Len(argv) <= 3 + 2 * items
KVOnce == \A p, q \in KeyValuesMeant : p[1] = q[1] => p = q

Emit == done => CSVWrite("%1$s", <<ToJson([argv |-> Args, status |-> Status,
                    meant |-> IF Status = "ok" THEN <<Meant>> ELSE <<>>])>>, IOEnv.CASES)
=============================================================================
