------------------------------ MODULE Context ------------------------------
(* A client context: outstanding operations (futures), the queue of messages *)
(* for it, waits (possibly nested in subscription callbacks), sleeps,        *)
(* wait-for-value, stops and "ignore stops before now".                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

CONSTANTS F,            \* operations
          Stops,        \* TRUE: stop / ignore actions are part of the behaviours
          Timeouts,     \* how long a wait or sleep may be told to last (None: no limit)
          EvTimeouts,   \* and between messages
          None, MaxClock,
          Hist

VARIABLES fut,          \* operation -> idle | out | ok | err
          resp,         \* operations whose answer is queued or was delivered
          q,            \* messages not yet serviced
          stack,        \* waits in progress, innermost first
          sid, nsid,    \* pending "ignore" marker (0 none), marker counter
          attr,         \* value of the attribute waited for
          watching,     \* "no" | "yes" (wait-for-value subscribed) | "stale"
          res,          \* what finished in this step: sequence of <<wait id, outcome>>
          nw,           \* wait counter
          clock,        \* the time
          act, hist
vars == <<fut, resp, q, stack, sid, nsid, attr, watching, res, nw, clock, act, hist>>

Msg(t, f, s) == [t |-> t, f |-> f, s |-> s]
\* a wait: k "wait", "sleep" or "when"; end: when it gives up; ev: how long it waits for the next message, till ee
Frame(i, k, s, end, ev, ee) == [id |-> i, k |-> k, s |-> s, end |-> end, ev |-> ev, ee |-> ee]
After(now, t) == IF t = None THEN None ELSE now + t
\* the innermost wait waits for a new message from now on
Fresh(m) == IF m.stack = <<>> THEN m
            ELSE [m EXCEPT !.stack = <<[Head(@) EXCEPT !.ee = After(m.now, Head(m.stack).ev)]>> \o Tail(@)]
Good == 2
Bad == 3

(* The machine that services messages; m is a record of the mutable parts *)
Pop(m, o) == [m EXCEPT !.stack = Tail(m.stack), !.res = Append(m.res, <<Head(m.stack).id, o>>), !.back = TRUE]

\* back in an outer wait after its callback returned: operations that finished meanwhile
\* are no longer waited for, and a failed one fails the wait
Settle(m) ==
  IF m.stack = <<>> THEN [m EXCEPT !.back = FALSE]
  ELSE LET top == Head(m.stack)
           failed == {f \in top.s : m.fut[f] = "err"}
           left == {f \in top.s : m.fut[f] \in {"out"}}
       IN IF m.back /\ failed # {} THEN Pop([m EXCEPT !.back = FALSE], "err")
          ELSE [m EXCEPT !.stack = <<[top EXCEPT !.s = left]>> \o Tail(m.stack), !.back = FALSE]

Enter(m, k, s, t, e) ==   \* a wait on s begins, with a timeout and a timeout between messages
  LET i == m.nw + 1
      m1 == [m EXCEPT !.nw = i]
      failed == {f \in s : m.fut[f] = "err"}
      left == {f \in s : m.fut[f] = "out"}
  IN IF failed # {} THEN [m1 EXCEPT !.res = Append(@, <<i, "err">>), !.back = TRUE]
     ELSE IF left = {} /\ k = "wait" THEN [m1 EXCEPT !.res = Append(@, <<i, "ok">>), !.back = TRUE]
     ELSE [m1 EXCEPT !.stack = <<Frame(i, k, left, After(m.now, t), e, After(m.now, e))>> \o @]

Handle(m, x) ==     \* one message taken from the queue by the innermost wait
  LET top == Head(m.stack) IN
  CASE x.t = "mark" -> [m EXCEPT !.sid = IF @ = x.f THEN 0 ELSE @]
    [] x.t = "stop" -> IF m.sid = 0 THEN Pop(m, "aborted") ELSE m
    [] x.t = "ret"  -> LET m1 == [m EXCEPT !.fut[x.f] = "ok"] IN
                       IF top.k = "when" THEN m1
                       ELSE [m1 EXCEPT !.stack = <<[top EXCEPT !.s = @ \ {x.f}]>> \o Tail(@)]
    [] x.t = "err"  -> LET m1 == [m EXCEPT !.fut[x.f] = "err"] IN
                       IF x.f \in top.s THEN Pop(m1, "err") ELSE m1
    [] x.t = "upd"  -> IF x.s = {} THEN [m EXCEPT !.back = TRUE] ELSE Enter(m, "wait", x.s, None, None)
    [] x.t = "val"  -> IF m.watching = "no" THEN m
                       ELSE IF x.f = Good THEN
                            [m EXCEPT !.q = Append(@, Msg("wret", 0, {})), !.watching = "no"]
                       ELSE IF x.f = Bad THEN
                            [Pop(m, "bad") EXCEPT !.q = Append(@, Msg("wret0", 0, {})), !.watching = "no"]
                       ELSE m
    [] x.t = "wret" -> IF top.k = "when" THEN Pop(m, "ok") ELSE
                       [m EXCEPT !.stack = [i \in 1..Len(@) |-> IF @[i].k = "when"
                                              THEN [@[i] EXCEPT !.k = "wait"] ELSE @[i]]]
    [] x.t = "wret0" -> m

RECURSIVE Service(_)
Service(m0) ==
  LET m == Settle(m0) IN
  IF m.back THEN Service(m)
  ELSE IF m.stack = <<>> THEN m
  ELSE LET top == Head(m.stack) IN
    IF top.k = "wait" /\ top.s = {} THEN Service(Fresh(Pop(m, "ok")))
    ELSE IF m.q = <<>> THEN
       (IF top.end <= m.now \/ top.ee <= m.now
        THEN Service(Fresh(Pop(m, IF top.k = "sleep" THEN "ok" ELSE "timeout")))
        ELSE m)
    ELSE Service(Fresh(Handle([m EXCEPT !.q = Tail(@)], Head(m.q))))

M == [fut |-> fut, q |-> q, stack |-> stack, sid |-> sid, watching |-> watching,
      res |-> <<>>, nw |-> nw, now |-> clock, back |-> FALSE]

Become(m, a) ==
  /\ fut' = m.fut /\ q' = m.q /\ stack' = m.stack /\ sid' = m.sid
  /\ watching' = IF m.watching = "yes" /\ ~(\E i \in 1..Len(m.stack) : m.stack[i].k = "when")
                 THEN "stale" ELSE m.watching
  /\ res' = m.res /\ nw' = m.nw /\ clock' = m.now
  /\ act' = a
  /\ hist' = IF Hist THEN Append(hist, <<a, [fut |-> fut', res |-> res',
                  blocked |-> [i \in 1..Len(stack') |-> stack'[i].id]]>>) ELSE hist

Init == /\ fut = [f \in F |-> "idle"] /\ resp = {} /\ q = <<>> /\ stack = <<>>
        /\ sid = 0 /\ nsid = 0 /\ attr = 0 /\ watching = "no" /\ res = <<>> /\ nw = 0 /\ clock = 0
        /\ act = [n |-> "init"] /\ hist = <<>>

InFrames(f) == \E i \in 1..Len(stack) : f \in stack[i].s

Post(f) ==
  /\ fut[f] # "out" /\ ~InFrames(f)
  /\ \A i \in 1..Len(q) : f \notin q[i].s
  /\ resp' = resp \ {f}
  /\ UNCHANGED <<nsid, attr>>
  /\ Become([M EXCEPT !.fut[f] = "out"], [n |-> "post", f |-> f])

Respond(f, ok) ==
  /\ fut[f] = "out" /\ f \notin resp
  /\ resp' = resp \cup {f}
  /\ UNCHANGED <<nsid, attr>>
  /\ Become(Service([M EXCEPT !.q = Append(@, Msg(IF ok THEN "ret" ELSE "err", f, {}))]),
            [n |-> "respond", f |-> f, ok |-> ok])

\* two answers and an update arrive together
Burst(f, g, okf, okg, s) ==
  /\ f # g /\ fut[f] = "out" /\ fut[g] = "out" /\ f \notin resp /\ g \notin resp
  /\ Len(stack) < 3
  /\ resp' = resp \cup {f, g}
  /\ UNCHANGED <<nsid, attr>>
  /\ Become(Service([M EXCEPT !.q = @ \o <<Msg("upd", 0, s), Msg(IF okf THEN "ret" ELSE "err", f, {}),
                                            Msg(IF okg THEN "ret" ELSE "err", g, {})>>]),
            [n |-> "burst", f |-> f, g |-> g, okf |-> okf, okg |-> okg, s |-> s])

\* an update of a subscription whose callback waits for the operations s (or just returns)
Update(s) ==
  /\ Len(stack) < 3 /\ Len(q) < 4
  /\ \A f \in s : fut[f] # "idle"
  /\ UNCHANGED <<resp, nsid, attr>>
  /\ Become(Service([M EXCEPT !.q = Append(@, Msg("upd", 0, s))]), [n |-> "update", s |-> s])

CanWait == stack = <<>>
Wait(s, t, e) ==
  /\ CanWait /\ s # {}
  /\ \A f \in s : fut[f] # "idle"
  /\ UNCHANGED <<resp, nsid, attr>>
  /\ Become(Service(Enter(M, "wait", s, t, e)), [n |-> "wait", s |-> s, t |-> t, e |-> e])

Sleep(t) ==
  /\ CanWait /\ t # None
  /\ UNCHANGED <<resp, nsid, attr>>
  /\ Become(Service([Enter(M, "sleep", {}, t, None) EXCEPT !.back = FALSE]), [n |-> "sleep", t |-> t])

WhenMatches(t, e) ==
  /\ CanWait /\ watching = "no"
  /\ \A i \in 1..Len(q) : q[i].t \notin {"val", "wret", "wret0", "upd"}
  /\ UNCHANGED <<resp, nsid, attr>>
  /\ Become(Service([Enter(M, "when", {}, t, e) EXCEPT !.watching = "yes", !.back = FALSE,
                       !.q = Append(@, Msg("val", attr, {}))]), [n |-> "when", t |-> t, e |-> e])

SetAttr(v) ==
  /\ v # attr
  /\ watching = "stale" => v # Bad
  \* a bad value raises through the innermost wait (here: only when that is the one for the value)
  /\ v = Bad /\ stack # <<>> => Head(stack).k = "when"
  /\ Len(q) < 4
  /\ attr' = v
  /\ UNCHANGED <<resp, nsid>>
  /\ Become(IF watching = "no" THEN M ELSE
            Service([M EXCEPT !.q = Append(@, Msg("val", v, {}))]), [n |-> "attr", v |-> v])

\* time passes
Tick ==
  /\ clock < MaxClock
  /\ UNCHANGED <<resp, nsid, attr>>
  /\ Become(Service([M EXCEPT !.now = clock + 1]), [n |-> "tick"])

Stop ==
  /\ Stops /\ Len(q) < 4
  /\ UNCHANGED <<resp, nsid, attr>>
  /\ Become(Service([M EXCEPT !.q = Append(@, Msg("stop", 0, {}))]), [n |-> "stop"])

Ignore ==
  /\ Stops /\ Len(q) < 4
  /\ nsid' = nsid + 1
  /\ UNCHANGED <<resp, attr>>
  /\ Become(Service([M EXCEPT !.sid = nsid + 1, !.q = Append(@, Msg("mark", nsid + 1, {}))]),
            [n |-> "ignore"])

\* (the set depends on the state so that a new sample is drawn at every step)
Some(S, k) == IF Hist THEN LET T == {x \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T) ELSE S

Next ==
  \/ \E f \in F : Post(f)
  \/ \E f \in F, ok \in BOOLEAN : Respond(f, ok)
  \/ \E f, g \in F, a, b \in BOOLEAN, s \in Some(SUBSET F, 2) : (\A h \in s : fut[h] # "idle") /\ Burst(f, g, a, b, s)
  \/ \E s \in Some(SUBSET F, 4) : Update(s)
  \/ \E s \in Some(SUBSET F, 6), t \in Some(Timeouts, 2), e \in Some(EvTimeouts, 1) : Wait(s, t, e)
  \/ \E t \in Timeouts : Sleep(t)
  \/ \E t \in (IF Hist THEN Timeouts ELSE {None}), e \in Some(EvTimeouts, 1) : WhenMatches(t, e)
  \/ Tick
  \/ \E v \in 0..3 : SetAttr(v)
  \/ (IF Hist THEN (\E z \in 1..3 : Stop) ELSE Stop)
  \/ (IF Hist THEN (\E z \in 1..2 : Ignore) ELSE Ignore)

\* a wait in progress never waits for something already known to be finished, and one
\* that ended "ok" waits for nothing still outstanding
NoLostWait == \A i \in 1..Len(stack) : i = 1 => \A f \in stack[i].s : fut[f] = "out"
Progress == stack # <<>> => q = <<>>
\* operations only finish through their own answer
OwnAnswer == [][\A f \in F : (fut[f] = "out" /\ fut'[f] \in {"ok", "err"}) => f \in resp']_vars
Bound == nw < 4 /\ nsid < 2
Bound2 == nw < 2 /\ nsid < 2 /\ Len(q) < 5
View == <<fut, resp, q, stack, sid, nsid, attr, watching, nw, clock>>
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
