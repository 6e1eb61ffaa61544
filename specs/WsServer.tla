------------------------------ MODULE WsServer ------------------------------
(* A websocket server in front of two blocks: connections come and go, send  *)
(* messages, good and bad, alone or several at once, and are sent responses. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization, SequencesExt, Bitwise
CONSTANTS Conns, Ids, Vals, MaxHolds, Validate, Hist, Addrs, Kinds, MaxBurst
VARIABLES open,    \* connection -> address it came from, or "-" when closed
          subs,    \* live subscriptions: [c, id, b, p, d]
          vals,    \* block -> value of its attribute x
          holds,   \* calls in progress: [c, id, b, v, g]; c = "gone" if the connection was closed
          out,     \* responses of this step, in no particular order
          gen, act, hist
vars == <<open, subs, vals, holds, out, gen, act, hist>>
Blocks == {"b1", "b2"}

\* -- who may write: the networks of the interfaces that are up ------------
Nets == {<<<<10, 1, 2, 3>>, <<255, 255, 0, 0>>>>, <<<<192, 168, 5, 130>>, <<255, 255, 255, 192>>>>,
         <<<<127, 0, 0, 1>>, <<255, 0, 0, 0>>>>}
Octets(a) == CASE a = "10.1.99.7" -> <<10, 1, 99, 7>> [] a = "10.2.2.3" -> <<10, 2, 2, 3>>
               [] a = "192.168.5.129" -> <<192, 168, 5, 129>> [] a = "192.168.5.127" -> <<192, 168, 5, 127>>
               [] a = "192.168.5.192" -> <<192, 168, 5, 192>> [] a = "127.3.4.5" -> <<127, 3, 4, 5>>
               [] a = "172.16.0.5" -> <<172, 16, 0, 5>> [] a = "11.1.2.3" -> <<11, 1, 2, 3>>
               [] a = "::1" -> <<127, 0, 0, 1>> [] a = "fe80::1" -> <<>>
Within(o, n) == \A k \in 1..4 : (o[k] & n[2][k]) = (n[1][k] & n[2][k])
Allowed(a) == ~Validate \/ (Octets(a) # <<>> /\ \E n \in Nets : Within(Octets(a), n))

\* -- messages -------------------------------------------------------------
\* m = [k: kind, id, b: block, p: path ("xv": value of x, "x": x), v, d: delta]
Malformed == {"notjson", "notdict", "noid", "badtype", "nopath", "emptypath"}
Bad == {"get.bad", "put.ro", "put.short", "put.val", "post.bad", "post.param", "post.fail"}  \* refused or failing
Resp(c, id, k, v) == [c |-> c, id |-> id, k |-> k, v |-> v]
NoId(k) == k \in {"notjson", "notdict", "noid"}
Writes(k) == k \in {"put", "put.ro", "put.short", "put.val", "post", "post.bad", "post.param", "post.fail", "hold"}
SubAt(S, c, id) == {s \in S : s.c = c /\ s.id = id}

\* Stage one, as a message arrives: refused at once, or passed on to its block.
\* a = [subs (ids in use), out, todo]
Arrive(a, x) ==
  LET c == x.c  m == x.m  err == [a EXCEPT !.out = Append(@, Resp(c, IF NoId(m.k) THEN 0 ELSE m.id, "err", 0))] IN
  IF m.k \in Malformed THEN err
  ELSE IF m.k = "sub" THEN
         IF <<c, m.id>> \in a.ids \/ m.b = "nope" THEN err
         ELSE [a EXCEPT !.ids = @ \cup {<<c, m.id>>}, !.todo = Append(@, x)]
  ELSE IF m.k = "unsub" THEN IF <<c, m.id>> \in a.ids THEN [a EXCEPT !.todo = Append(@, x)] ELSE err
  ELSE IF m.b = "nope" \/ (Writes(m.k) /\ ~Allowed(open[c])) THEN err
  ELSE [a EXCEPT !.todo = Append(@, x)]
\* Stage two: handled by the block. s = [subs, vals, holds, out]
Note(S, b, v) == SetToSeq({Resp(u.c, u.id, IF u.d THEN "delta" ELSE "upd", v) : u \in {w \in S : w.b = b}})
Handle(s, x) ==
  LET c == x.c  m == x.m  R(k, v) == [s EXCEPT !.out = Append(@, Resp(c, m.id, k, v))] IN
  CASE m.k \in Bad -> R("err", 0)
    [] m.k = "get" -> R("ret", s.vals[m.b])
    [] m.k = "dot" -> R("ret", 77)      \* the state of the server itself, which is Ready
    [] m.k = "put" -> [s EXCEPT !.vals[m.b] = m.v,
                               !.out = Append(@ \o Note(s.subs, m.b, m.v),
                                              Resp(c, m.id, "ret", IF m.d THEN m.v ELSE 0))]
    [] m.k = "post" -> R("ret", m.v + 100)
    [] m.k = "hold" -> [s EXCEPT !.holds = @ \cup {[c |-> c, id |-> m.id, b |-> m.b, v |-> m.v, g |-> x.g]}]
    [] m.k = "sub" -> [s EXCEPT !.subs = @ \cup {[c |-> c, id |-> m.id, b |-> m.b, p |-> m.p, d |-> m.d]},
                               !.out = Append(@, Resp(c, m.id, IF m.d THEN "delta" ELSE "upd", s.vals[m.b]))]
    [] m.k = "unsub" -> IF SubAt(s.subs, c, m.id) = {} THEN R("err", 0)
                        ELSE [s EXCEPT !.subs = @ \ SubAt(@, c, m.id), !.out = Append(@, Resp(c, m.id, "ret", 0))]
Log(a) ==
  /\ act' = a
  /\ hist' = IF Hist THEN Append(hist, <<a, [out |-> out', vals |-> vals']>>) ELSE hist
Send(xs) ==
  /\ \A j \in 1..Len(xs) : open[xs[j].c] # "-"
  \* writing the value there is already: whether that is notified is left open
  /\ \A j \in 1..Len(xs) : (xs[j].m.k = "put" /\ xs[j].m.b \in Blocks) => xs[j].m.v # vals[xs[j].m.b]
  /\ LET a == FoldLeft(Arrive, [ids |-> {<<s.c, s.id>> : s \in subs}, out |-> <<>>, todo |-> <<>>], xs)
         r == FoldLeft(Handle, [subs |-> subs, vals |-> vals, holds |-> holds, out |-> a.out], a.todo) IN
     /\ Cardinality(r.holds) <= MaxHolds
     /\ subs' = r.subs /\ vals' = r.vals /\ holds' = r.holds /\ out' = r.out
  /\ gen' = IF Hist THEN gen + Len(xs) ELSE gen
  /\ UNCHANGED open /\ Log([n |-> "send", xs |-> xs])
\* the block itself changes
Set(b, v) ==
  /\ v # vals[b] /\ vals' = [vals EXCEPT ![b] = v] /\ out' = Note(subs, b, v)
  /\ UNCHANGED <<open, subs, holds, gen>> /\ Log([n |-> "set", b |-> b, v |-> v])
Finish(h, ok) ==
  /\ holds' = holds \ {h}
  /\ out' = IF h.c = "gone" THEN <<>> ELSE <<Resp(h.c, h.id, IF ok THEN "ret" ELSE "err", IF ok THEN h.v ELSE 0)>>
  /\ UNCHANGED <<open, subs, vals, gen>> /\ Log([n |-> "finish", g |-> h.g, ok |-> ok])
Connect(c, a) ==
  /\ open[c] = "-" /\ open' = [open EXCEPT ![c] = a] /\ out' = <<>>
  /\ UNCHANGED <<subs, vals, holds, gen>> /\ Log([n |-> "connect", c |-> c, a |-> a])
Close(c) ==
  /\ open[c] # "-" /\ open' = [open EXCEPT ![c] = "-"] /\ out' = <<>>
  /\ subs' = {s \in subs : s.c # c}
  /\ holds' = {IF h.c = c THEN [h EXCEPT !.c = "gone"] ELSE h : h \in holds}
  /\ UNCHANGED <<vals, gen>> /\ Log([n |-> "close", c |-> c])

Some(S, k) == IF Hist THEN LET T == {x \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T) ELSE S
Msgs == [k : Kinds, id : Ids, b : Blocks, p : {"xv"}, v : Vals, d : BOOLEAN]
Busy == {c \in Conns : open[c] # "-"}
\* messages that arrive together: nothing depends on the order in which they are handled but for those of one
\* connection with one id, and an id that is being given up is not taken again at once
Apart(xs) == \A i, j \in 1..Len(xs) : i < j =>
   /\ ~(xs[i].m.k \in {"unsub"} /\ xs[j].m.k \in {"sub", "unsub"} /\ xs[i].c = xs[j].c /\ xs[i].m.id = xs[j].m.id)
   /\ xs[i].m.k # "put"
One(c, m, j) == [c |-> c, m |-> m, g |-> IF Hist THEN gen + j ELSE 10 * j + (CHOOSE k \in 0..9 : \A h \in holds : h.g # 10 * j + k)]
SubMsgs == [k : {"sub", "unsub"}, id : Ids, b : Blocks, p : IF Hist THEN {"xv", "x"} ELSE {"xv"}, v : {1}, d : BOOLEAN]
OddMsgs == [k : {"sub", "get", "put", "post", "hold"}, id : Ids, b : {"nope"}, p : {"xv"}, v : {1}, d : {FALSE}]
WrMsgs == [k : {"put", "post", "hold", "put.ro"} \cap Kinds, id : Ids, b : Blocks, p : {"xv"}, v : Vals, d : BOOLEAN]
SomeMsg == Some(Msgs, 1) \cup (IF Hist THEN Some(SubMsgs, 1) \cup Some(WrMsgs, 1) \cup Some(OddMsgs, 1) ELSE SubMsgs \cup OddMsgs)
Next ==
  \/ \E z \in (IF Hist THEN 1..4 ELSE {1}) : \E c \in Some(Busy, 1), m \in (IF Hist THEN Some(SomeMsg, 1) ELSE SomeMsg) : Send(<<One(c, m, 1)>>)
  \/ Hist /\ MaxBurst > 1 /\ \E c \in Some(Busy, 1), e \in Some(Busy, 1), f \in Some(Busy, 1), m \in Some(SomeMsg, 2), n \in Some(SomeMsg, 1), o \in Some(SomeMsg, 1) :
        LET xs == <<One(c, m, 1), One(e, n, 2), One(f, o, 3)>> IN Apart(xs) /\ Send(xs)
  \/ ~Hist /\ MaxBurst > 1 /\ \E c, e \in Busy, m \in SubMsgs, n \in [k : {"sub", "unsub", "put"}, id : Ids, b : {"b1"}, p : {"xv"}, v : Vals, d : {FALSE}] :
        LET xs == <<One(c, m, 1), One(e, n, 2)>> IN Apart(xs) /\ Send(xs)
  \/ \E b \in Some(Blocks, 1), v \in Some(Vals, 1) : Set(b, v)
  \/ \E h \in Some(holds, 1), ok \in Some(BOOLEAN, 1) : Finish(h, ok)
  \/ \E z \in (IF Hist THEN 1..2 ELSE {1}) : \E c \in Some({c \in Conns : open[c] = "-"}, 1), a \in Some(Addrs, 1) : Connect(c, a)
  \/ \E c \in Some({c \in Busy : ~Hist \/ Len(hist) % 4 = 0}, 1) : Close(c)
Init == /\ open = [c \in Conns |-> "-"] /\ subs = {} /\ vals = [b \in Blocks |-> 1] /\ holds = {}
        /\ out = <<>> /\ gen = 0 /\ act = [n |-> "init"] /\ hist = <<>>

\* every message is answered, on its own connection and with its own id: at once, or when the call it made ends
AnsweredOnce == [][act'.n = "send" =>
   /\ \A j \in 1..Len(act'.xs) : LET x == act'.xs[j]  i == IF NoId(x.m.k) THEN 0 ELSE x.m.id IN
       (\E k \in 1..Len(out') : out'[k].c = x.c /\ out'[k].id = i) \/ (\E h \in holds' : h.c = x.c /\ h.id = i)
   \* one message has one answer, begins one call or one subscription
   /\ Len(act'.xs) = 1 => Len(SelectSeq(out', LAMBDA r : r.k \in {"ret", "err"})) + Cardinality(holds' \ holds) + Cardinality(subs' \ subs) = 1]_vars
\* responses go to open connections only
OpenOnly == [][\A k \in 1..Len(out') : open'[out'[k].c] # "-"]_vars
\* a connection that may not write changes nothing
NoForbidden == [][(act'.n = "send" /\ \A j \in 1..Len(act'.xs) : ~Allowed(open[act'.xs[j].c])) => UNCHANGED <<vals, holds>>]_vars
\* live subscriptions have distinct ids on open connections
SubsOk == \A s, u \in subs : (s.c = u.c /\ s.id = u.id) => s = u
SubsOpen == \A s \in subs : open[s.c] # "-"
View == <<open, subs, vals, holds>>
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
