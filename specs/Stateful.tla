------------------------------ MODULE Stateful ------------------------------
(* The state machine of a stateful / manager block under concurrent reset,   *)
(* disable, save and load calls whose part hooks return or fail at any time. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

CONSTANTS Manager,   \* TRUE: manager block (save, load), FALSE: plain stateful block
          MaxOps, Hist
VARIABLES state, msg,  \* msg: message of the fault ("*": any)
          ops,         \* running calls: id -> [kind, wait (parts still running), err]
          nop,
          trail,       \* states shown in this step, in order
          res,         \* calls that ended in this step, in order: <<id, outcome>>
          act, hist
vars == <<state, msg, ops, nop, trail, res, act, hist>>

Parts == {1, 2}          \* part 1 ends when told to stop, part 2 does not listen
Kinds == IF Manager THEN {"reset", "disable", "save", "load"} ELSE {"reset", "disable"}
Block == IF Manager THEN {"Resetting", "Ready", "Saving", "Loading"} ELSE {"Resetting", "Ready"}
Allowed(a, b) ==
  \/ a = "Resetting" /\ b = "Ready"
  \/ Manager /\ a = "Ready" /\ b \in {"Saving", "Loading"}
  \/ Manager /\ a \in {"Saving", "Loading"} /\ b = "Ready"
  \/ a \in Block /\ b \in {"Fault", "Disabling"}
  \/ a = "Fault" /\ b \in {"Resetting", "Disabling"}
  \/ a = "Disabling" /\ b \in {"Fault", "Disabled"}
  \/ a = "Disabled" /\ b = "Resetting"
StartState(k) == CASE k = "reset" -> "Resetting" [] k = "disable" -> "Disabling"
                   [] k = "save" -> "Saving" [] k = "load" -> "Loading"
EndState(k) == IF k = "disable" THEN "Disabled" ELSE "Ready"
\* fields of the block and the states in which they accept requests
Fields == {"disable", "reset", "pa", "cf"} \cup (IF Manager THEN {"save", "design", "layout", "exports", "xx"} ELSE {})
Wr(f, s) == CASE f = "disable" -> s \notin {"Disabling", "Disabled"}
              [] f = "reset" -> s \in {"Disabled", "Fault"}
              [] f \in {"save", "design", "layout", "exports"} -> s = "Ready"
              [] f = "cf" -> s \in {"Ready", "Fault"}
              [] f \in {"pa", "xx"} -> s \notin {"Disabling", "Disabled"}
Field(k) == CASE k = "load" -> "design" [] OTHER -> k
Sev(s) == CASE s = "Disabled" -> 3 [] s = "Fault" -> 2 [] OTHER -> 0
Show(s, m) == [state |-> s, sev |-> Sev(s), msg |-> CASE s = "Disabled" -> "Disabled" [] s = "Fault" -> m [] OTHER -> "",
               wr |-> [f \in Fields |-> Wr(f, s)]]

M == [state |-> state, msg |-> msg, trail |-> <<>>, res |-> <<>>, ops |-> ops]
Go(m, s, t) == [m EXCEPT !.state = s, !.msg = t, !.trail = Append(@, Show(s, t))]

\* a call ends with error e ("*" for the text of an illegal transition)
Fail(m, i, e) ==
  IF m.state = "Fault" THEN [m EXCEPT !.res = Append(@, <<i, e>>)]
  ELSE IF Allowed(m.state, "Fault") THEN [Go(m, "Fault", e) EXCEPT !.res = Append(@, <<i, e>>)]
  ELSE [m EXCEPT !.res = Append(@, <<i, "*">>)]
Finish(m, i) ==
  LET o == m.ops[i]
      m1 == [m EXCEPT !.ops = [j \in DOMAIN m.ops \ {i} |-> m.ops[j]]] IN
  IF o.err # "" THEN Fail(m1, i, o.err)
  ELSE IF Allowed(m.state, EndState(o.kind))
       THEN [Go(m1, EndState(o.kind), "") EXCEPT !.res = Append(@, <<i, "ok">>)]
       ELSE Fail(m1, i, "*")

Become(m, a) ==
  /\ state' = m.state /\ msg' = m.msg /\ trail' = m.trail /\ res' = m.res /\ ops' = m.ops
  /\ act' = a
  /\ hist' = IF Hist THEN Append(hist, <<a, [state |-> Show(m.state, m.msg), trail |-> m.trail, res |-> m.res,
                 run |-> {<<i, p>> : i \in DOMAIN m.ops, p \in Parts} \cap
                         {<<i, p>> \in (1..nop') \X Parts : i \in DOMAIN m.ops /\ p \in m.ops[i].wait}]>>) ELSE hist

Init == /\ state = "Ready" /\ msg = "" /\ ops = [i \in {} |-> 0] /\ nop = 0 /\ trail = <<>> /\ res = <<>>
        /\ act = [n |-> "init"] /\ hist = <<>>

Call(k) ==
  /\ Cardinality(DOMAIN ops) < MaxOps
  /\ nop' = nop + 1
  /\ LET i == nop + 1 IN
     IF ~Wr(Field(k), state)
     THEN Become([M EXCEPT !.res = <<<<i, "refused">>>>], [n |-> "call", k |-> k, i |-> i])
     ELSE IF Allowed(state, StartState(k))
     THEN Become(Go([M EXCEPT !.ops = [j \in DOMAIN ops \cup {i} |-> IF j = i THEN [kind |-> k, wait |-> Parts, err |-> ""] ELSE ops[j]]],
                    StartState(k), ""), [n |-> "call", k |-> k, i |-> i])
     ELSE Become(Fail(M, i, "*"), [n |-> "call", k |-> k, i |-> i])

\* a call that fails before any part is asked
BadSave ==
  /\ Manager /\ nop' = nop + 1
  /\ IF ~Wr("save", state) THEN Become([M EXCEPT !.res = <<<<nop + 1, "refused">>>>], [n |-> "badsave", i |-> nop + 1])
     ELSE Become(Fail(Go(M, "Saving", ""), nop + 1, "Cannot save over a template"), [n |-> "badsave", i |-> nop + 1])

Part(i, p, ok) ==
  /\ i \in DOMAIN ops /\ p \in ops[i].wait
  /\ UNCHANGED nop
  /\ LET o == ops[i]
         e == IF o.err # "" THEN o.err ELSE IF ok THEN "" ELSE "boom" \o ToString(i) \o ToString(p)
         w == (o.wait \ {p}) \ (IF e # "" THEN {1} ELSE {})
         m == [M EXCEPT !.ops[i] = [o EXCEPT !.err = e, !.wait = w]] IN
     Become(IF w = {} THEN Finish(m, i) ELSE m, [n |-> "part", i |-> i, p |-> p, ok |-> ok])

\* somebody writes a field
Write(f) ==
  /\ f \in {"pa", "cf", "xx"} \cap Fields
  /\ UNCHANGED nop
  /\ Become([M EXCEPT !.res = <<<<0, IF Wr(f, state) THEN "ok" ELSE "refused">>>>], [n |-> "write", f |-> f])

\* the set of fields exported by a child changes and comes back, rebuilding the block's fields
Rebuild == Manager /\ UNCHANGED nop /\ Become(M, [n |-> "rebuild"])

Next == \/ \E k \in Kinds : Call(k)
        \/ (IF Hist THEN \E z \in 1..2, i \in DOMAIN ops, p \in Parts : Part(i, p, TRUE) ELSE
                         \E i \in DOMAIN ops, p \in Parts : Part(i, p, TRUE))
        \/ \E i \in DOMAIN ops, p \in Parts : Part(i, p, FALSE)
        \/ BadSave
        \/ \E f \in Fields : Write(f)
        \/ Rebuild

\* properties of the specification
LegalTrail == [][\A j \in 1..Len(trail') :
                   Allowed(IF j = 1 THEN state ELSE trail'[j-1].state, trail'[j].state)]_vars
\* a call that raised leaves the block not in an operation's success state because of it
QuietStates == DOMAIN ops = {} => state \in {"Ready", "Fault", "Disabled"}
DisableEnds == [][\A j \in 1..Len(res') : (act'.n = "part" /\ res'[j][1] \in DOMAIN ops /\ ops[res'[j][1]].kind = "disable"
                     /\ res'[j][2] = "ok") => state' = "Disabled"]_vars
Bound == nop < 6
View == <<state, msg, ops, trail, res>>
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
