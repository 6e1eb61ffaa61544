------------------------------- MODULE Writes -------------------------------
(* A block with one attribute of every kind and a method: what a write makes of what it is given. *)
(* Values on the wire: [t, i, s, l]: none; bool (i); int (i); float (i quarters); str (s);        *)
(* list (l: items); dict (l: pairs of key and value); edge (i: far out of range).                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
CONSTANTS Kinds, Hist
VARIABLES val,     \* kind -> what the attribute holds (a converted value)
          wr,      \* kind -> writeable; and "m" for the method
          log,     \* the method's log: [took, present, ret, failed]
          act, res, hist
vars == <<val, wr, log, act, res, hist>>
View == <<val, wr, log>>
Sc(t, i, s) == [t |-> t, i |-> i, s |-> s, l |-> <<>>]
NoneV == Sc("none", 0, "")
I(n) == Sc("int", n, "")
F(q) == Sc("float", q, "")
B(b) == Sc("bool", b, "")
S(x) == Sc("str", 0, x)
L(l) == [t |-> "list", i |-> 0, s |-> "", l |-> l]
D(l) == [t |-> "dict", i |-> 0, s |-> "", l |-> l]
Edge(n) == Sc("edge", n, "")
\* converted values: num (i quarters), bool, str, strof (the text form of what was given), list, table;
\* bad: must be refused; open: may be refused or be any value of the right type
Num(q) == Sc("num", q, "")
Bad == Sc("bad", 0, "")
Open == Sc("open", 0, "")
StrOf == Sc("strof", 0, "")
Out(l) == [t |-> "list", i |-> 0, s |-> "", l |-> l]
Tab(l) == [t |-> "table", i |-> 0, s |-> "", l |-> l]

Ints == {"int8", "uint8", "int16", "int32", "int64", "uint32"}
Floats == {"float32", "float64"}
Lo(k) == CASE k = "int8" -> -128 [] k \in {"uint8", "uint32"} -> 0 [] k = "int16" -> -32768 [] OTHER -> -100000
Hi(k) == CASE k = "int8" -> 127 [] k = "uint8" -> 255 [] k = "int16" -> 32767 [] OTHER -> 100000
Trunc(q) == IF q >= 0 THEN (q \div 4) * 4 ELSE -(((-q) \div 4) * 4)
InRange(k, q) == IF k \in Floats THEN Num(q)
                 ELSE LET n == Trunc(q) IN IF n \div 4 >= Lo(k) /\ n \div 4 <= Hi(k) THEN Num(n) ELSE Open
\* a number out of one item
ToNum(k, v) ==
  CASE v.t \in {"int", "bool"} -> InRange(k, 4 * v.i)
    [] v.t = "float" -> InRange(k, v.i)
    [] v.t = "edge" -> Open
    [] v.t = "str" -> (CASE v.s = "12" -> InRange(k, 48) [] v.s = "-1" -> InRange(k, -4) [] v.s = "0" -> Num(0)
                         [] v.s = "2.5" -> (IF k \in Floats THEN Num(10) ELSE Bad)
                         [] OTHER -> Bad)
    [] OTHER -> Bad
ToBool(v) ==
  CASE v.t \in {"int", "bool", "float", "edge"} -> Sc("bool", IF v.i = 0 THEN 0 ELSE 1, "")
    [] v.t = "none" -> Sc("bool", 0, "")
    [] v.t = "str" -> Sc("bool", IF v.s \in {"0", "False", "no", ""} THEN 0 ELSE 1, "")
    [] OTHER -> Bad
\* items of a boolean array: text is left open
ToBoolItem(v) == IF v.t \in {"str", "none", "list", "dict"} THEN Open ELSE ToBool(v)
ToChoice(v) ==
  CASE v.t = "str" -> (IF v.s \in {"a", "b"} THEN S(v.s) ELSE Bad)
    [] v.t \in {"int", "bool"} -> (IF v.i = 0 THEN S("a") ELSE IF v.i = 1 THEN S("b") ELSE Bad)
    [] v.t = "float" -> (IF v.i \in {0, 4} THEN Open ELSE Bad)
    [] v.t = "none" -> S("a")
    [] OTHER -> Bad
ToStrItem(v) == IF v.t = "str" THEN S(v.s) ELSE Bad
Range(f) == {f[x] : x \in DOMAIN f}
\* a list of converted items
Items(l) == IF \E x \in Range(l) : x.t = "bad" THEN Bad
            ELSE IF \E x \in Range(l) : x.t = "open" THEN Open ELSE Out(l)
IsArr(k) == k \in {"boolarr", "choicearr", "int32arr", "float64arr", "strarr"}
ToItem(k, v) ==
  CASE k = "boolarr" -> ToBoolItem(v)
    [] k = "choicearr" -> ToChoice(v)
    [] k = "int32arr" -> ToNum("int32", v)
    [] k = "float64arr" -> (IF v.t = "none" THEN Open ELSE ToNum("float64", v))
    [] OTHER -> ToStrItem(v)
ToArr(k, v) ==
  CASE v.t = "none" -> Out(<<>>)
    [] v.t = "list" -> Items([i \in 1..Len(v.l) |-> ToItem(k, v.l[i])])
    [] v.t = "dict" -> (IF k \in {"choicearr", "boolarr"} THEN Open ELSE Bad)
    [] k = "choicearr" /\ v.t # "str" -> Bad
    [] OTHER -> Items(<<ToItem(k, v)>>)
Keys(d) == {d.l[i].l[1].s : i \in 1..Len(d.l)}
Get(d, key) == d.l[CHOOSE i \in 1..Len(d.l) : d.l[i].l[1].s = key].l[2]
ToTable(v) ==
  IF v.t = "none" THEN Tab(<<Out(<<>>), Out(<<>>)>>)
  ELSE IF v.t # "dict" \/ Keys(v) # {"num", "txt"} THEN Bad
  ELSE LET c == <<ToArr("int32arr", Get(v, "num")), ToArr("strarr", Get(v, "txt"))>> IN
       IF c[1].t = "bad" \/ c[2].t = "bad" THEN Bad
       ELSE IF c[1].t = "open" \/ c[2].t = "open" THEN Open
       ELSE IF Len(c[1].l) # Len(c[2].l) THEN Bad ELSE Tab(c)
Conv(k, v) ==
  CASE k = "bool" -> ToBool(v)
    [] k = "choice" -> ToChoice(v)
    [] k \in Ints \cup Floats -> (IF v.t = "none" THEN Num(0) ELSE ToNum(k, v))
    [] k = "str" -> (IF v.t = "none" THEN S("") ELSE IF v.t = "str" THEN S(v.s) ELSE StrOf)
    [] k = "table" -> ToTable(v)
    [] OTHER -> ToArr(k, v)
Default(k) == Conv(k, NoneV)

\* the method takes x (int32, required), y (choice, optional), z (strarr, optional); returns r (float64)
Par == <<[k |-> "x", t |-> "int32"], [k |-> "y", t |-> "choice"], [k |-> "z", t |-> "strarr"]>>
TypeOf(p) == Par[CHOOSE i \in 1..3 : Par[i].k = p].t
ConvParams(d) ==
  IF ~(Keys(d) \subseteq {"x", "y", "z"}) \/ "x" \notin Keys(d) THEN Bad
  ELSE LET c == [p \in Keys(d) |-> Conv(TypeOf(p), Get(d, p))] IN
       IF \E p \in Keys(d) : c[p].t = "bad" THEN Bad
       ELSE IF \E p \in Keys(d) : c[p].t = "open" THEN Open
       ELSE Out([i \in 1..3 |-> IF Par[i].k \in Keys(d) THEN c[Par[i].k] ELSE Default(Par[i].t)])

Log(r, o) ==
  /\ act' = r /\ res' = o
  /\ hist' = IF Hist THEN Append(hist, <<r, [res |-> o, val |-> {<<k, val'[k]>> : k \in DOMAIN val'}, log |-> log']>>) ELSE hist
Empty == [took |-> <<>>, present |-> {}, ret |-> 0, failed |-> FALSE, known |-> TRUE]
Init == /\ val = [k \in Kinds |-> Default(k)] /\ wr = [k \in Kinds \cup {"m"} |-> TRUE]
        /\ log = Empty /\ act = [n |-> "init"] /\ res = "ok" /\ hist = <<>>

\* how: as the raw request (with get), through a view of the block; a table also as an object of the attribute's own
\* table class or of another one, and an array as an array object, where such an object can be made: what it is made of
\* counts, not what it comes in
Put(k, v, how, boom) ==
  LET c == Conv(k, v)
      r == [n |-> "put", k |-> k, v |-> v, how |-> how, boom |-> boom, c |-> c, wr |-> wr[k]] IN
  IF ~wr[k] \/ c.t = "bad" \/ boom
  THEN UNCHANGED <<val, wr, log>> /\ Log(r, "err")
  ELSE val' = [val EXCEPT ![k] = c] /\ UNCHANGED <<wr, log>> /\ Log(r, IF c.t = "open" THEN "any" ELSE "ok")
Post(d, how, boom) ==
  LET c == ConvParams(d)
      r == [n |-> "post", v |-> d, how |-> how, boom |-> boom, c |-> c, wr |-> wr["m"]] IN
  IF ~wr["m"] \/ c.t = "bad" THEN UNCHANGED <<val, wr, log>> /\ Log(r, "err")
  ELSE /\ UNCHANGED <<val, wr>>
       /\ log' = (IF c.t = "open" THEN [Empty EXCEPT !.known = FALSE]
                  ELSE [took |-> c.l, present |-> Keys(d), ret |-> IF boom THEN 0 ELSE c.l[1].i, failed |-> boom, known |-> TRUE])
       /\ Log(r, IF c.t = "open" THEN "any" ELSE IF boom THEN "err" ELSE "ok")
\* no such field, or not that kind of field; too many arguments
Wrong(w) ==
  /\ UNCHANGED <<val, wr, log>> /\ Log([n |-> "wrong", w |-> w], "err")
Writeable(k, b) ==
  /\ wr' = [wr EXCEPT ![k] = b] /\ UNCHANGED <<val, log>> /\ Log([n |-> "writeable", k |-> k, b |-> b], "ok")

Scalars == {NoneV, B(0), B(1), I(0), I(1), I(-1), I(7), I(127), I(128), I(-129), I(255), I(300), I(40000), F(0), F(4), F(10), F(-7), F(2),
            S(""), S("a"), S("b"), S("c"), S("12"), S("-1"), S("0"), S("2.5"), S("abc"), S("False"), S("no"), Edge(1), Edge(-1)}
Pair(k, v) == L(<<S(k), v>>)
Lists1 == {L(<<>>), L(<<L(<<I(1)>>)>>), L(<<L(<<I(1), I(2)>>), L(<<I(3), I(4)>>)>>), L(<<I(1), L(<<>>)>>), L(<<D(<<>>)>>)}
      \cup {L(<<x>>) : x \in Scalars} \cup {L(<<x, y>>) : x \in {I(1), S("a"), F(6), S("12")}, y \in Scalars}
Cols == {L(<<>>), L(<<I(3)>>), L(<<I(3), I(4)>>), L(<<S("p")>>), L(<<S("p"), S("q")>>), NoneV, S("p"), I(5), S("12"), L(<<L(<<I(1)>>)>>)}
Dicts == {D(<<>>), D(<<Pair("a", I(1))>>), D(<<Pair("num", L(<<I(1)>>))>>),
          D(<<Pair("num", L(<<I(1)>>)), Pair("txt", L(<<S("p")>>)), Pair("oops", L(<<I(1)>>))>>)}
Tables == {D(<<Pair("num", x), Pair("txt", y)>>) : x \in Cols, y \in Cols}
NumCols == {L(<<>>), L(<<I(3)>>), L(<<I(3), I(4)>>), L(<<I(3), I(4), I(5)>>)}
TxtCols == {L(<<>>), L(<<S("p")>>), L(<<S("p"), S("q")>>), L(<<S("12"), S("-1")>>)}
ObjTables == {D(<<Pair("num", x), Pair("txt", y)>>) : x \in NumCols \cup TxtCols, y \in TxtCols}
Vals == Scalars \cup Lists1 \cup Dicts
Params == {D(<<>>), D(<<Pair("y", S("a"))>>), D(<<Pair("x", I(1)), Pair("w", I(1))>>), D(<<Pair("w", I(1))>>)}
      \cup {D(<<Pair("x", v)>>) : v \in Vals}
      \cup {D(<<Pair("x", I(3)), Pair("y", v)>>) : v \in Vals}
      \cup {D(<<Pair("z", v), Pair("x", I(4))>>) : v \in Vals}
      \cup {D(<<Pair("x", v), Pair("y", w), Pair("z", L(<<S("q")>>))>>) : v \in {I(1), F(10), S("abc")}, w \in {S("a"), I(1), S("zz")}}

Some(T, k) == IF Hist THEN LET U == {z \in T : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(U) THEN k ELSE Cardinality(U), U) ELSE T
W(k) == IF Hist THEN 1..k ELSE {1}
Hows == {"raw", "get", "view"}
Rare == IF Hist THEN RandomElement({z \in 1..6 : Len(hist) >= 0}) = 1 ELSE FALSE
Next ==
  \/ \E z \in W(8) : \E k \in Some(Kinds \ {"table"}, 1), v \in Some(Vals, 1), h \in Some(Hows, 1), b \in {Rare} : Put(k, v, h, b)
  \/ \E z \in W(2) : \E v \in Some(Tables, 1), h \in Some(Hows \cup {"obj", "other"}, 1), b \in {Rare} : Put("table", v, h, b)
  \/ \E v \in Some(ObjTables, 1), h \in Some({"obj", "other"}, 1) : Put("table", v, h, FALSE)
  \/ \E v \in Some(Vals, 1), h \in Some(Hows, 1) : Put("table", v, h, FALSE)
  \/ \E z \in W(2) : \E k \in Some({k \in Kinds : IsArr(k)}, 1), v \in Some({v \in Vals : v.t = "list"}, 1) : Put(k, v, "arr", FALSE)
  \/ \E z \in W(4) : \E d \in Some(Params, 1), h \in Some({"raw", "view"}, 1), b \in {Rare} : Post(d, h, b)
  \/ \E w \in Some({"putnone", "putmethod", "postnone", "postattr", "args"}, 1) : Wrong(w)
  \/ \E k \in Some(Kinds \cup {"m"}, 1) : Writeable(k, ~wr[k])
  \/ \E k \in Some({k \in Kinds \cup {"m"} : ~wr[k]}, 1) : Writeable(k, TRUE)

\* ---- what must hold
OkType(k, c) ==
  CASE k = "bool" -> c.t = "bool"
    [] k = "choice" -> c.t = "str" /\ c.s \in {"a", "b"}
    [] k \in Ints -> c.t = "num" /\ c.i % 4 = 0 /\ c.i \div 4 >= Lo(k) /\ c.i \div 4 <= Hi(k)
    [] k \in Floats -> c.t = "num"
    [] k = "str" -> c.t \in {"str", "strof"}
    [] k = "table" -> c.t = "table" /\ Len(c.l[1].l) = Len(c.l[2].l) /\ \A x \in Range(c.l[1].l) : x.t = "num"
    [] k = "boolarr" -> c.t = "list" /\ \A x \in Range(c.l) : x.t = "bool"
    [] k \in {"int32arr", "float64arr"} -> c.t = "list" /\ \A x \in Range(c.l) : x.t = "num"
    [] OTHER -> c.t = "list" /\ \A x \in Range(c.l) : x.t = "str"
Typed == \A k \in Kinds : val[k].t = "open" \/ OkType(k, val[k])
Refused == [][res' = "err" /\ act'.n # "post" => val' = val /\ log' = log]_vars
Locked == [][act'.n = "put" /\ ~wr[act'.k] => res' = "err" /\ val' = val]_vars
Only == [][\A k \in Kinds : val'[k] # val[k] => act'.n = "put" /\ act'.k = k]_vars
Logged == [][act'.n = "post" /\ log' # log => wr["m"] /\ act'.c.t # "bad" /\ (log'.known => log'.failed = act'.boom)]_vars
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
\* bounds for model checking: one field at a time
Alone(k) == \A j \in Kinds \cup {"m"} : j # k => wr[j] /\ (IF j = "m" THEN log = Empty ELSE val[j] = Default(j))
McNext ==
  \/ \E k \in Kinds : Alone(k) /\ \E v \in Vals, b \in BOOLEAN : Put(k, v, "raw", b)
  \/ Alone("table") /\ \E v \in Tables : Put("table", v, "raw", FALSE)
  \/ Alone("m") /\ \E d \in Params, b \in BOOLEAN : Post(d, "raw", b)
  \/ \E k \in Kinds \cup {"m"} : Alone(k) /\ \E b \in BOOLEAN : Writeable(k, b)
=============================================================================
