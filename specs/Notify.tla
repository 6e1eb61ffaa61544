------------------------------- MODULE Notify -------------------------------
(* Subscriptions to a Malcolm block.                                         *)
(* The block has a number attribute x, a table attribute t with columns a,b, *)
(* and a field d that may be added and removed.  Clients subscribe (full     *)
(* values or differences) at any path; changes are made in groups, a group   *)
(* being everything done under one changes_squashed.  One group = one step.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

CONSTANTS Slots,        \* subscription slots (each used by one client)
          PairOps,      \* kinds of operation allowed in groups of two
          GroupSub,     \* allow a subscribe to arrive while a group is open
          Hist          \* keep a history (simulation) or not (exhaustive)

VARIABLES s,            \* contents of the block
          sub,          \* slot -> subscription
          act,          \* last action
          hist

vars == <<s, sub, act, hist>>

Paths == {"", "x", "x.value", "x.alarm", "x.meta", "x.meta.label", "x.timeStamp",
          "t", "t.value", "t.value.a", "t.value.b", "d", "d.value", "d.alarm",
          "meta", "meta.fields", "t.meta.elements.a.label"}

Bit == {0, 1}
Block == [xv : Bit, xa : Bit, xl : Bit, ta : Bit, tb : Bit, tl : Bit, dp : Bit, dv : Bit, da : Bit]
NoSub == [on |-> FALSE, path |-> "", delta |-> FALSE, resp |-> "none"]

(* The part of the block seen at a path, as a tuple of its leaves *)
Proj(b, p) ==
  CASE p = ""              -> <<b.xv, b.xa, b.xl, b.ta, b.tb, b.tl, b.dp, b.dv, b.da>>
    [] p = "x"             -> <<b.xv, b.xa, b.xl>>
    [] p = "x.value"       -> <<b.xv>>
    [] p = "x.alarm"       -> <<b.xa>>
    [] p = "x.timeStamp"   -> <<>>
    [] p \in {"x.meta", "x.meta.label"} -> <<b.xl>>
    [] p = "t"             -> <<b.ta, b.tb, b.tl>>
    [] p = "t.value"       -> <<b.ta, b.tb>>
    [] p = "t.meta.elements.a.label"    -> <<b.tl>>
    [] p = "t.value.a"     -> <<b.ta>>
    [] p = "t.value.b"     -> <<b.tb>>
    [] p = "d"             -> <<b.dp, b.dv, b.da>>
    [] p = "d.value"       -> <<b.dp, b.dv>>
    [] p = "d.alarm"       -> <<b.dp, b.da>>
    [] p \in {"meta", "meta.fields"}    -> <<b.dp>>

(* Single operations; each knows what it does and which paths it must / may notify *)
Ops == {[o |-> "x",  v |-> v, w |-> 0] : v \in Bit}       \* set value (resets the alarm)
  \cup {[o |-> "xk", v |-> v, w |-> w] : v \in Bit, w \in Bit}  \* set value and alarm
  \cup {[o |-> "xa", v |-> v, w |-> 0] : v \in Bit}       \* set alarm
  \cup {[o |-> "xl", v |-> v, w |-> 0] : v \in Bit}       \* set label
  \cup {[o |-> "ta", v |-> v, w |-> 0] : v \in Bit}       \* change one column
  \cup {[o |-> "tb", v |-> v, w |-> 0] : v \in Bit}
  \cup {[o |-> "tl", v |-> v, w |-> 0] : v \in Bit}       \* relabel a column
  \cup {[o |-> "t",  v |-> v, w |-> w] : v \in Bit, w \in Bit}  \* change whole table
  \cup {[o |-> "ad", v |-> v, w |-> 0] : v \in Bit}       \* add (or replace) field d
  \cup {[o |-> "rd", v |-> 0, w |-> 0]}                   \* remove field d
  \cup {[o |-> "dv", v |-> v, w |-> w] : v \in Bit, w \in Bit}  \* set d's value and alarm

OpEnabled(b, op) == op.o \in {"rd", "dv"} => b.dp = 1

Apply(b, op) ==
  CASE op.o = "x"  -> [b EXCEPT !.xv = op.v, !.xa = 0]
    [] op.o = "xk" -> [b EXCEPT !.xv = op.v, !.xa = op.w]
    [] op.o = "xa" -> [b EXCEPT !.xa = op.v]
    [] op.o = "xl" -> [b EXCEPT !.xl = op.v]
    [] op.o = "ta" -> [b EXCEPT !.ta = op.v]
    [] op.o = "tb" -> [b EXCEPT !.tb = op.v]
    [] op.o = "tl" -> [b EXCEPT !.tl = op.v]
    [] op.o = "t"  -> [b EXCEPT !.ta = op.v, !.tb = op.w]
    [] op.o = "ad" -> [b EXCEPT !.dp = 1, !.dv = op.v, !.da = 0]
    [] op.o = "rd" -> [b EXCEPT !.dp = 0, !.dv = 0, !.da = 0]
    [] op.o = "dv" -> [b EXCEPT !.dv = op.v, !.da = op.w]

\* paths a notification of this operation may legitimately reach
May(op) ==
  CASE op.o \in {"x", "xk"} -> {"", "x", "x.value", "x.alarm", "x.timeStamp"}
    [] op.o = "xa" -> {"", "x", "x.alarm"}
    [] op.o = "xl" -> {"", "x", "x.meta", "x.meta.label"}
    [] op.o = "ta" -> {"", "t", "t.value", "t.value.a"}
    [] op.o = "tb" -> {"", "t", "t.value", "t.value.b"}
    [] op.o = "tl" -> {"", "t", "t.meta.elements.a.label"}
    [] op.o = "t"  -> {"", "t", "t.value", "t.value.a", "t.value.b"}
    [] op.o \in {"ad", "rd"} -> {"", "d", "d.value", "d.alarm", "meta", "meta.fields"}
    [] op.o = "dv" -> {"", "d", "d.value", "d.alarm"}
\* paths at which something (perhaps only the time stamp) certainly changes
Must(op) ==
  CASE op.o \in {"x", "xk"} -> {"", "x", "x.timeStamp"}
    [] op.o \in {"ta", "tb", "t"} -> {"", "t"}
    [] op.o = "ad" -> {"", "d"}
    [] op.o = "dv" -> {"", "d"}
    [] OTHER -> {}

RECURSIVE ApplyAll(_, _), EnabledAll(_, _)
ApplyAll(b, ops) == IF ops = <<>> THEN b ELSE ApplyAll(Apply(b, Head(ops)), Tail(ops))
EnabledAll(b, ops) == IF ops = <<>> THEN TRUE
   ELSE OpEnabled(b, Head(ops)) /\ EnabledAll(Apply(b, Head(ops)), Tail(ops))

MayAll(ops) == UNION {May(ops[i]) : i \in 1..Len(ops)}
\* a field whose last mention is a removal is not a certain change by itself
MustAll(ops) == UNION {Must(ops[i]) : i \in 1..Len(ops)} \ 
                 (IF ops[Len(ops)].o = "rd" THEN {"d"} ELSE {})

Resp(p, b1, b2, ops) ==
  IF Proj(b1, p) # Proj(b2, p) \/ p \in MustAll(ops) THEN "one"
  ELSE IF p \in MayAll(ops) THEN "opt"
  ELSE "none"

Quiet == [i \in Slots |-> [sub[i] EXCEPT !.resp = "none"]]

Log(a) == /\ act' = a
          /\ hist' = IF Hist THEN Append(hist, <<a, [s |-> s', sub |-> sub']>>) ELSE hist

Init == /\ s = [xv |-> 0, xa |-> 0, xl |-> 0, ta |-> 0, tb |-> 0, tl |-> 0, dp |-> 0, dv |-> 0, da |-> 0]
        /\ sub = [i \in Slots |-> NoSub]
        /\ act = [n |-> "init"]
        /\ hist = <<>>

Subscribe(i, p, d) ==
  /\ ~sub[i].on
  /\ sub' = [Quiet EXCEPT ![i] = [on |-> TRUE, path |-> p, delta |-> d, resp |-> "one"]]
  /\ UNCHANGED s
  /\ Log([n |-> "sub", i |-> i, path |-> p, delta |-> d])

Unsubscribe(i) ==
  /\ sub[i].on
  /\ sub' = [Quiet EXCEPT ![i] = [NoSub EXCEPT !.resp = "ret"]]
  /\ UNCHANGED s
  /\ Log([n |-> "unsub", i |-> i])

\* fail: whoever makes the changes raises an error at the end of the group
Change(ops, fail) ==
  /\ EnabledAll(s, ops)
  /\ s' = ApplyAll(s, ops)
  /\ sub' = [i \in Slots |-> IF sub[i].on
                THEN [sub[i] EXCEPT !.resp = Resp(sub[i].path, s, s', ops)]
                ELSE NoSub]
  /\ Log([n |-> "chg", ops |-> ops, fail |-> fail])

\* The subscribe request arrives while the group is being made: it is served after it,
\* and must see all of it in its first response (and nothing twice)
ChangeSub(ops, i, p, d) ==
  /\ GroupSub
  /\ ~sub[i].on
  /\ EnabledAll(s, ops)
  /\ s' = ApplyAll(s, ops)
  /\ sub' = [j \in Slots |-> IF j = i
                THEN [on |-> TRUE, path |-> p, delta |-> d, resp |-> "one"]
                ELSE IF sub[j].on
                THEN [sub[j] EXCEPT !.resp = Resp(sub[j].path, s, s', ops)]
                ELSE NoSub]
  /\ Log([n |-> "chgsub", ops |-> ops, i |-> i, path |-> p, delta |-> d])

Pairs == {<<a, b>> : a \in {o \in Ops : o.o \in PairOps}, b \in {o \in Ops : o.o \in PairOps}}

\* in simulation only a random sample of the groups is offered at each step, so that
\* subscribing and unsubscribing are not drowned
\* (the set depends on the state so that a new sample is drawn at every step)
Some(S, k) == IF Hist THEN LET T == {x \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T) ELSE S
SomePairs == Some(Pairs, 4)
SomeOps == Some(Ops, 4)
SomePaths == Some(Paths, 3)

Next ==
  \/ \E i \in Slots, p \in SomePaths, d \in BOOLEAN : Subscribe(i, p, d)
  \/ \E i \in Slots : Unsubscribe(i)
  \/ \E o \in SomeOps : Change(<<o>>, FALSE)
  \/ \E ops \in SomePairs : Change(ops, FALSE)
  \/ \E ops \in (IF Hist THEN Some(Pairs, 1) ELSE {}), c \in SomeOps : Change(Append(ops, c), FALSE)
  \/ \E ops \in (IF Hist THEN Some(Pairs, 1) ELSE {}) : Change(ops, TRUE)
  \/ \E ops \in Some(Pairs, 1), i \in Slots,
        p \in {"", "x.value", "t.value", "d"}, d \in BOOLEAN : ChangeSub(ops, i, p, d)

Spec == Init /\ [][Next]_vars

TypeOK == /\ s \in Block
          /\ \A i \in Slots : sub[i].path \in Paths /\ sub[i].resp \in {"none", "one", "opt", "ret"}
\* what is delivered is decided by what changed
ConsistentResp == \A i \in Slots : sub[i].resp \in {"one", "opt"} => sub[i].on
AbsentFieldClean == s.dp = 0 => s.dv = 0 /\ s.da = 0

\* A subscription that was not told anything has nothing new to be told
NoMissedChange == [][\A i \in Slots : (sub[i].on /\ sub'[i].on /\ sub'[i].path = sub[i].path
                        /\ sub'[i].resp = "none") => Proj(s, sub[i].path) = Proj(s', sub[i].path)]_vars

-----------------------------------------------------------------------------
View == <<s, [i \in Slots |-> [sub[i] EXCEPT !.resp = "-"]]>>
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
