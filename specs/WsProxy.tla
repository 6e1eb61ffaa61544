------------------------------ MODULE WsProxy -------------------------------
(* A block in one process and a proxy of it in another, joined by a          *)
(* websocket: changes and answers travel in order but take their time, calls *)
(* are made through the proxy, and the connection may be lost.               *)
(* The contents of the block are numbered versions: the replay compares the  *)
(* proxy with the block as it was at the version the specification gives.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization, SequencesExt
CONSTANTS Vals, MaxCalls, MaxVer, Hist, Changes
VARIABLES ver, x, d,       \* the block: version, value of its attribute x, whether it has the field d
          pver, px, pd,    \* the proxy
          up,              \* "up", "down" (connection lost), "off" (client disabled), "re" (connected again: the proxy is not synchronised)
          c2s, s2c,        \* messages under way
          calls,           \* calls not yet answered: id -> what it waits for
          held,            \* calls that the block is working on: [i, v, c: connection it came by]
          cn,              \* number of the connection
          next, act, hist
vars == <<ver, x, d, pver, px, pd, up, c2s, s2c, calls, held, cn, next, act, hist>>

Linked == up \in {"up", "re"}
Log(a, res) ==
  /\ act' = a
  /\ hist' = IF Hist THEN Append(hist, <<a, [ver |-> ver', x |-> x', d |-> d', pver |-> pver', px |-> px', pd |-> pd', up |-> up',
                                             res |-> res, open |-> DOMAIN calls']>>) ELSE hist
Delta(v, y, h) == [k |-> "delta", v |-> v, x |-> y, d |-> h]
Ans(i, r) == [k |-> "ans", i |-> i, r |-> r]
Ok(v) == [ok |-> TRUE, v |-> v]
Bad == [ok |-> FALSE, v |-> 0]
ToClient(ms) == s2c' = IF up = "up" THEN s2c \o ms ELSE IF up = "re" THEN s2c \o SelectSeq(ms, LAMBDA m : m.k # "delta") ELSE s2c

\* the block changes by itself: one or several things at once are one change
Change(ks, y, h) ==
  /\ ver < MaxVer
  /\ ver' = ver + 1 /\ x' = y /\ d' = h
  /\ ToClient(<<Delta(ver + 1, y, h)>>)
  /\ UNCHANGED <<pver, px, pd, up, c2s, calls, held, cn, next>> /\ Log([n |-> "change", ks |-> ks, x |-> y, d |-> h], <<>>)
\* a call through the proxy
Call(op, v) ==
  /\ Cardinality(DOMAIN calls) < MaxCalls /\ next < MaxVer
  /\ next' = next + 1
  /\ LET here == Linked /\ (op = "putd" => pd) IN
     /\ calls' = IF here THEN [i \in DOMAIN calls \cup {next} |-> TRUE] ELSE calls
     /\ c2s' = IF here THEN Append(c2s, [i |-> next, op |-> op, v |-> v]) ELSE c2s
     /\ UNCHANGED <<ver, x, d, pver, px, pd, up, s2c, held, cn>>
     /\ Log([n |-> "call", i |-> next, op |-> op, v |-> v], IF here THEN <<>> ELSE <<<<next, Bad>>>>)
\* the server is given the next message. Writes and finished calls are changes of the block, too: a new value, and
\* the record of what the method took and returned.
Serve ==
  /\ c2s # <<>> /\ ver + 2 < MaxVer
  /\ LET m == Head(c2s)
         upd(v, y, h, ans) == /\ ver' = v /\ x' = y /\ d' = h
                              /\ ToClient((IF v = ver THEN <<>> ELSE <<Delta(v, y, h)>>) \o ans) IN
     /\ c2s' = Tail(c2s)
     /\ held' = IF m.op = "hold" THEN held \cup {[i |-> m.i, v |-> m.v, c |-> cn]} ELSE held
     /\ CASE m.op = "put" -> upd(ver + 1, m.v, d, <<Ans(m.i, Ok(0))>>)
          [] m.op = "putd" -> IF d THEN upd(ver + 1, x, d, <<Ans(m.i, Ok(0))>>) ELSE upd(ver, x, d, <<Ans(m.i, Bad)>>)
          [] m.op = "putbad" -> upd(ver, x, d, <<Ans(m.i, Bad)>>)
          [] m.op = "echo" -> upd(ver + 1, x, d, <<Ans(m.i, Ok(m.v))>>)
          [] m.op = "fail" -> upd(ver + 1, x, d, <<Ans(m.i, Bad)>>)
          [] m.op = "hold" -> upd(ver, x, d, <<>>)
     /\ UNCHANGED <<pver, px, pd, up, calls, cn, next>> /\ Log([n |-> "serve"], <<>>)
Finish(h, ok) ==
  /\ ver < MaxVer /\ held' = held \ {h} /\ ver' = ver + 1
  /\ ToClient(<<Delta(ver + 1, x, d)>> \o (IF h.c = cn THEN <<Ans(h.i, IF ok THEN Ok(h.v) ELSE Bad)>> ELSE <<>>))
  /\ UNCHANGED <<x, d, pver, px, pd, up, c2s, calls, cn, next>> /\ Log([n |-> "finish", i |-> h.i, ok |-> ok], <<>>)
\* the client is given the next messages
Take(a, m) ==
  IF m.k = "delta" THEN [a EXCEPT !.v = m.v, !.x = m.x, !.d = m.d]
  ELSE [a EXCEPT !.cs = [i \in DOMAIN a.cs \ {m.i} |-> TRUE], !.res = Append(@, <<m.i, m.r>>)]
Deliver(k) ==
  /\ k > 0 /\ k <= Len(s2c)
  /\ LET a == FoldLeft(Take, [v |-> pver, x |-> px, d |-> pd, cs |-> calls, res |-> <<>>], SubSeq(s2c, 1, k)) IN
     /\ pver' = a.v /\ px' = a.x /\ pd' = a.d /\ calls' = a.cs /\ s2c' = SubSeq(s2c, k + 1, Len(s2c))
     /\ UNCHANGED <<ver, x, d, up, c2s, held, cn, next>> /\ Log([n |-> "deliver", k |-> k], a.res)
\* the connection is lost with everything that was on its way
Lose(to, n) ==
  /\ up' = to /\ c2s' = <<>> /\ s2c' = <<>> /\ calls' = <<>> /\ cn' = cn + 1
  /\ UNCHANGED <<ver, x, d, pver, px, pd, held, next>>
  /\ Log([n |-> n], SetToSeq({<<i, Bad>> : i \in DOMAIN calls}))
Drop == Linked /\ Lose("down", "drop")
\* the client's block is disabled: it gives up the connection
Disable == up # "off" /\ Lose("off", "disable")
Reset ==
  /\ up \in {"down", "off"} /\ up' = "re" /\ UNCHANGED <<ver, x, d, pver, px, pd, c2s, s2c, calls, held, cn, next>> /\ Log([n |-> "reset"], <<>>)

Some(S, k) == IF Hist THEN LET T == {y \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T) ELSE S
\* the kinds of change: "x" gives x a value, "d" adds or removes (or, with "r", replaces) d; the others change something else
Step(ks) == \E y \in (IF "x" \in ks THEN Some(Vals \ {x}, 1) ELSE {x}) :
            \E h \in (IF "d" \in ks THEN {~d} ELSE {d}) : Change(ks, y, h)
Next ==
  \/ \E z \in (IF Hist THEN 1..3 ELSE {1}) : \E k \in Some(Changes, 1) : Step({k})
  \/ Hist /\ \E k \in Some(Changes, 1), l \in Some(Changes, 1), m \in Some(Changes, 1) : Step({k, l, m})
  \/ \E z \in (IF Hist THEN 1..2 ELSE {1}) :
     \E op \in Some({"put", "putd", "putbad", "echo", "fail", "hold"}, 1), v \in Some(Vals, 1) : Call(op, v)
  \/ \E z \in (IF Hist THEN 1..3 ELSE {1}) : Serve
  \/ \E h \in Some(held, 1), ok \in Some(BOOLEAN, 1) : Finish(h, ok)
  \/ \E z \in (IF Hist THEN 1..3 ELSE {1}) : \E k \in Some(1..Len(s2c), 1) : Deliver(k)
  \/ Hist /\ Deliver(Len(s2c))
  \/ (IF Hist THEN Len(hist) % 8 = 7 ELSE cn < 1) /\ (Drop \/ Disable)
  \/ Reset
Init == /\ ver = 0 /\ x = 0 /\ d = FALSE /\ pver = 0 /\ px = 0 /\ pd = FALSE /\ up = "up" /\ c2s = <<>> /\ s2c = <<>>
        /\ calls = <<>> /\ held = {} /\ cn = 0 /\ next = 1 /\ act = [n |-> "init"] /\ hist = <<>>

\* every call not yet answered is under way somewhere, exactly once
Under(i) == Cardinality({j \in 1..Len(c2s) : c2s[j].i = i}) + Cardinality({j \in 1..Len(s2c) : s2c[j].k = "ans" /\ s2c[j].i = i})
            + Cardinality({h \in held : h.i = i /\ h.c = cn})
NoneLost == \A i \in DOMAIN calls : Under(i) = 1
\* with nothing under way and the connection never lost, the proxy is the block
Mirrors == (up = "up" /\ s2c = <<>>) => (pver = ver /\ px = x /\ pd = d)
\* the proxy never goes back
Forward == [][pver' >= pver]_vars
View == <<ver, x, d, pver, px, pd, up, c2s, s2c, calls, held, cn, next>>
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
