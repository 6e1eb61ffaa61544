------------------------------- MODULE PandA --------------------------------
(* A PandA and the clients that share its one text connection: commands go   *)
(* out in order, the device answers them in order, and the bytes of the      *)
(* answers arrive in arbitrary pieces.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization, SequencesExt
CONSTANTS MaxCalls,     \* calls in progress at once
          Units,        \* pieces a line of an answer can be cut into
          Vals, Hist, Bound
Rows == IF Hist THEN {<<>>, <<1>>, <<7, 0>>, <<4, 5, 6>>} ELSE {<<>>, <<1>>}
Fields == {"F1", "F2"}   \* ordinary fields
Tables == {"T1", "T2"}
ErrF == {"E1"}           \* a field that always fails
VARIABLES vals, tabs, chg,   \* the device: values, tables, names changed since last asked
          calls,             \* id -> call in progress
          inbox,             \* commands sent and not yet looked at by the device
          stream,            \* answers sent and not yet received, in units
          next, act, hist
vars == <<vals, tabs, chg, calls, inbox, stream, next, act, hist>>

\* a command: who it belongs to, what, and its arguments
Cmd(i, c, f, v) == [i |-> i, c |-> c, f |-> f, v |-> v]
OK == [k |-> "ok"]
Err == [k |-> "err"]
Val(v) == [k |-> "val", v |-> v]
Multi(s) == [k |-> "multi", v |-> s]

\* what the device answers, and how its state changes
NameSeq == <<"E1", "F1", "F2", "T1", "T2">>
ChangeLine(n) == IF n \in Tables THEN [f |-> n, k |-> "table"]
                 ELSE IF n \in ErrF THEN [f |-> n, k |-> "error"] ELSE [f |-> n, k |-> "val", v |-> vals[n]]
Answer(m) ==
  CASE m.c = "get" -> IF m.f \in Fields THEN Val(vals[m.f]) ELSE Err
    [] m.c = "set" -> IF m.f \in Fields THEN OK ELSE Err
    [] m.c = "stab" -> IF m.f \in Tables THEN OK ELSE Err
    [] m.c = "gtab" -> Multi(tabs[m.f])
    [] m.c = "list" -> Multi(m.v)
    [] m.c = "chg" -> Multi([j \in 1..Len(SelectSeq(NameSeq, LAMBDA n : n \in chg)) |->
                              ChangeLine(SelectSeq(NameSeq, LAMBDA n : n \in chg)[j])])
Lines(r) == IF r.k = "multi" THEN Len(r.v) + 1 ELSE 1
Pieces(i, r) == [j \in 1..(Units * Lines(r)) |-> IF j = Units * Lines(r) THEN [i |-> i, last |-> TRUE, r |-> r]
                                                ELSE [i |-> i, last |-> FALSE, r |-> OK]]

\* calls: an answer reaches the call it belongs to, if that is still going on
\* result: [cs: calls, out: commands sent, res: calls that ended]
Result(c) ==   \* of a call whose answers are all in
  CASE c.op = "get" -> IF c.got[1] = Err THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> c.got[1].v]
    [] c.op \in {"setm", "stab"} -> [ok |-> TRUE]
    [] c.op = "list" -> [ok |-> TRUE, t |-> c.got[1].v]
    [] c.op = "chg" ->
         LET L == SelectSeq(c.got[1].v, LAMBDA x : x.k # "error" \/ c.v)
             T == SelectSeq(c.got[1].v, LAMBDA x : x.k = "table") IN
         [ok |-> TRUE, v |-> L \o [j \in 1..Len(T) |-> [f |-> T[j].f, k |-> "rows", v |-> c.got[j + 1].v]]]
Feed(a, u) ==
  IF ~u.last \/ u.i \notin DOMAIN a.cs THEN a
  ELSE LET c == [a.cs[u.i] EXCEPT !.got = Append(@, u.r), !.left = @ - 1]
           drop == [i \in DOMAIN a.cs \ {u.i} |-> a.cs[i]]
       IN IF u.r = Err /\ c.op # "get" THEN [a EXCEPT !.cs = drop, !.res = Append(@, <<u.i, [ok |-> FALSE]>>)]
          ELSE IF c.op = "chg" /\ Len(c.got) = 1
               THEN LET T == SelectSeq(u.r.v, LAMBDA x : x.k = "table") IN
                    IF T = <<>> THEN [a EXCEPT !.cs = drop, !.res = Append(@, <<u.i, Result(c)>>)]
                    ELSE [a EXCEPT !.cs = [a.cs EXCEPT ![u.i] = [c EXCEPT !.left = Len(T)]],
                                   !.out = @ \o [j \in 1..Len(T) |-> Cmd(u.i, "gtab", T[j].f, 0)]]
          ELSE IF c.left = 0 THEN [a EXCEPT !.cs = drop, !.res = Append(@, <<u.i, Result(c)>>)]
          ELSE [a EXCEPT !.cs = [a.cs EXCEPT ![u.i] = c]]
Fed(us) == FoldSeq(LAMBDA u, a : Feed(a, u), [cs |-> calls, out |-> <<>>, res |-> <<>>], us)

Log(a, res) ==
  /\ act' = a
  /\ hist' = IF Hist THEN Append(hist, <<a, [res |-> res, open |-> DOMAIN calls']>>) ELSE hist

\* a call: the commands it sends at once
Call(op, v, cmds) ==
  /\ Cardinality(DOMAIN calls) < MaxCalls /\ next < Bound
  /\ next' = next + 1
  /\ calls' = [i \in DOMAIN calls \cup {next} |-> IF i = next THEN [op |-> op, v |-> v, left |-> Len(cmds), got |-> <<>>]
                                                 ELSE calls[i]]
  /\ inbox' = inbox \o cmds
  /\ UNCHANGED <<vals, tabs, chg, stream>>
Get(f) == Call("get", 0, <<Cmd(next, "get", f, 0)>>) /\ Log([n |-> "get", i |-> next, f |-> f], <<>>)
SetM(s) == /\ Call("setm", 0, [j \in 1..Len(s) |-> Cmd(next, "set", s[j][1], s[j][2])])
           /\ Log([n |-> "setm", i |-> next, s |-> s], <<>>)
SetTab(t, r) == Call("stab", 0, <<Cmd(next, "stab", t, r)>>) /\ Log([n |-> "stab", i |-> next, f |-> t, v |-> r], <<>>)
\* a question whose answer is a list of any texts
List(l) == Call("list", 0, <<Cmd(next, "list", "", l)>>) /\ Log([n |-> "list", i |-> next], <<>>)
Chg(e) == Call("chg", e, <<Cmd(next, "chg", "", 0)>>) /\ Log([n |-> "chg", i |-> next, e |-> e], <<>>)
Serve ==
  /\ inbox # <<>>
  /\ LET m == Head(inbox)  r == Answer(m) IN
     /\ inbox' = Tail(inbox) /\ stream' = stream \o Pieces(m.i, r)
     /\ vals' = IF m.c = "set" /\ r = OK THEN [vals EXCEPT ![m.f] = m.v] ELSE vals
     /\ tabs' = IF m.c = "stab" /\ r = OK THEN [tabs EXCEPT ![m.f] = m.v] ELSE tabs
     /\ chg' = IF m.c = "chg" THEN {} ELSE IF m.c = "set" /\ m.f \in ErrF THEN chg \cup {m.f}
               ELSE IF m.c \in {"set", "stab"} /\ r = OK THEN chg \cup {m.f} ELSE chg
     /\ UNCHANGED <<calls, next>> /\ Log([n |-> "serve", m |-> m, r |-> r], <<>>)
Deliver(k, cut) ==
  /\ k <= Len(stream) /\ k > 0
  /\ LET a == Fed(SubSeq(stream, 1, k)) IN
     /\ calls' = a.cs /\ inbox' = inbox \o a.out /\ stream' = SubSeq(stream, k + 1, Len(stream))
     /\ UNCHANGED <<vals, tabs, chg, next>> /\ Log([n |-> "deliver", k |-> k, cut |-> cut], a.res)

Some(S, k) == IF Hist THEN LET T == {x \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T) ELSE S
Lists == {<<>>} \cup {<<a>> : a \in Vals} \cup {<<a, b>> : a, b \in Vals}
Names == Fields \cup ErrF
Sets == {<<<<f, v>>>> : f \in Names, v \in Vals} \cup {<<<<f, v>>, <<g, w>>>> : f, g \in Names, v, w \in Vals}
Next ==
  \/ \E f \in Some(Names \cup {"X9"}, 1) : Get(f)
  \/ \E s \in Some({z \in Sets : Len(z) = 2 => z[1][1] # z[2][1]}, 1) : SetM(s)
  \/ \E t \in Some(Tables, 1), r \in Some(Rows, 1) : SetTab(t, r)
  \/ \E e \in Some(BOOLEAN, 1) : Chg(e)
  \/ \E l \in Some(Lists, 1) : List(l)
  \/ \E z \in (IF Hist THEN 1..3 ELSE {1}) : Serve
  \/ \E k \in Some(1..Len(stream), 2), cut \in Some(IF Hist THEN 1..9 ELSE {1}, 1) : Deliver(k, cut)
  \/ Hist /\ \E cut \in Some(1..9, 1) : Deliver(Len(stream), cut)
Init == /\ vals = [f \in Fields |-> CHOOSE v \in Vals : TRUE] /\ tabs = [t \in Tables |-> <<>>] /\ chg = {}
        /\ calls = <<>> /\ inbox = <<>> /\ stream = <<>> /\ next = 1 /\ act = [n |-> "init"] /\ hist = <<>>

\* every call in progress has commands or answers under way, as many as it waits for: none is lost
Waiting(i) == Len(SelectSeq(inbox, LAMBDA m : m.i = i)) + Len(SelectSeq(stream, LAMBDA u : u.i = i /\ u.last))
NoneLost == \A i \in DOMAIN calls : Waiting(i) = calls[i].left /\ calls[i].left > 0
View == <<vals, tabs, chg, calls, inbox, stream, next>>
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
