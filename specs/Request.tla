------------------------------ MODULE Request ------------------------------
(* Requests from several clients to one block: every request is answered     *)
(* exactly once, by its own id, whatever else is in progress.                *)
(* Fields: attributes rw (quick put), ro (read only), slow (put function     *)
(* blocks until the environment lets it go on), calc (put function returns a *)
(* value of its own), adj (put function stores something else); methods   *)
(* are quick, none (returns nothing), bad (raises),   *)
(* slowm (blocks), nest (writes rw of the same block through a client before *)
(* returning), wret (result that does not fit its metadata), rom (never      *)
(* writeable).                                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

CONSTANTS Clients, Vals, Hist

VARIABLES rw, sv,      \* values of attributes rw and slow
          pend,        \* client -> request in progress, or Idle
          out,         \* client -> response of this step
          act, hist
vars == <<rw, sv, pend, out, act, hist>>

None == [k |-> "none", v |-> 0]
Ret(v) == [k |-> "ret", v |-> v]      \* Return with value v
Void == [k |-> "void", v |-> 0]       \* Return with no value
Err(c) == [k |-> "err", v |-> c]      \* Error; 0 any, 1 the handler's own exception
Struct == [k |-> "struct", v |-> 0]   \* Return of a structure (checked against the block)

Idle == [r |-> "idle", v |-> 0, get |-> FALSE]

\* Requests answered at once: [r, v, get]
GetReqs == {[r |-> r, v |-> 0, get |-> FALSE] : r \in
   {"get.block", "get.rw", "get.rw.value", "get.sv.value", "get.ro.value", "get.method", "get.meta.label",
    "get.missing", "get.rw.missing", "get.rw.value.deeper", "get.missing.value"}}
PutReqs == {[r |-> r, v |-> v, get |-> g] : r \in
   {"put.rw", "put.rw.value", "put.calc", "put.adj", "put.ro", "put.missing", "put.method", "put.block", "put.badvalue"},
   v \in Vals, g \in BOOLEAN}
PostReqs == {[r |-> r, v |-> v, get |-> FALSE] : r \in
   {"post.quick", "post.none", "post.bad", "post.nest", "post.rom", "post.missing", "post.attr", "post.block",
    "post.badparam", "post.missingparam", "post.extraparam", "post.wret"}, v \in Vals}
OtherReqs == {[r |-> "unsub.unknown", v |-> 0, get |-> FALSE]}
SlowReqs == {[r |-> r, v |-> v, get |-> g] : r \in {"put.slow"}, v \in Vals, g \in BOOLEAN}
       \cup {[r |-> "post.slowm", v |-> v, get |-> FALSE] : v \in Vals}
Reqs == GetReqs \cup PutReqs \cup PostReqs \cup OtherReqs \cup SlowReqs

Errors == {"get.missing", "get.rw.missing", "get.rw.value.deeper", "get.missing.value",
           "put.ro", "put.missing", "put.method", "put.block", "put.badvalue",
           "post.rom", "post.missing", "post.attr", "post.block", "post.badparam",
           "post.missingparam", "post.extraparam", "post.wret", "unsub.unknown"}

Answer(q) ==
  CASE q.r \in Errors -> Err(0)
    [] q.r \in {"get.block", "get.rw", "get.method"} -> Struct
    [] q.r = "get.rw.value" -> Ret(rw)
    [] q.r = "get.sv.value" -> Ret(sv)
    [] q.r = "get.ro.value" -> Ret(7)
    [] q.r = "get.meta.label" -> Ret(99)
    [] q.r \in {"put.rw", "put.rw.value"} -> IF q.get THEN Ret(q.v) ELSE Void
    [] q.r = "put.calc" -> IF q.get THEN Ret(q.v + 10) ELSE Void
    [] q.r = "put.adj" -> IF q.get THEN Ret(q.v + 50) ELSE Void
    [] q.r = "post.quick" -> Ret(q.v + 20)
    [] q.r = "post.none" -> Void
    [] q.r = "post.nest" -> Ret(q.v + 30)
    [] q.r = "post.bad" -> Err(1)

Log(a) == /\ act' = a
          /\ hist' = IF Hist THEN Append(hist, <<a, [rw |-> rw', sv |-> sv', pend |-> pend', out |-> out']>>) ELSE hist

Init == /\ rw = 0 /\ sv = 0
        /\ pend = [c \in Clients |-> Idle]
        /\ out = [c \in Clients |-> None]
        /\ act = [n |-> "init"] /\ hist = <<>>

SilentBut(c, r) == [d \in Clients |-> IF d = c THEN r ELSE None]

Send(c, q) ==
  /\ pend[c] = Idle
  /\ q.r \notin {"put.slow", "post.slowm"}
  /\ rw' = IF q.r \in {"put.rw", "put.rw.value", "post.nest"} THEN q.v ELSE rw
  /\ out' = SilentBut(c, Answer(q))
  /\ UNCHANGED <<sv, pend>>
  /\ Log([n |-> "send", c |-> c, q |-> q])

SendSlow(c, q) ==
  /\ pend[c] = Idle
  /\ q.r \in {"put.slow", "post.slowm"}
  /\ pend' = [pend EXCEPT ![c] = q]
  /\ out' = SilentBut(c, None)
  /\ UNCHANGED <<rw, sv>>
  /\ Log([n |-> "send", c |-> c, q |-> q])

Finish(c, ok) ==
  /\ pend[c] # Idle
  /\ pend' = [pend EXCEPT ![c] = Idle]
  /\ sv' = IF ok /\ pend[c].r = "put.slow" THEN pend[c].v ELSE sv
  /\ out' = SilentBut(c, IF ~ok THEN Err(1)
                         ELSE IF pend[c].r = "post.slowm" THEN Ret(pend[c].v + 40)
                         ELSE IF pend[c].get THEN Ret(pend[c].v) ELSE Void)
  /\ UNCHANGED rw
  /\ Log([n |-> "finish", c |-> c, ok |-> ok])

BothReqs == {"put.rw", "post.quick", "get.ro.value", "put.ro", "post.bad"}
\* two clients' requests arrive at the same moment (handled in arrival order)
Both(c, d, q, v) ==
  /\ c # d /\ pend[c] = Idle /\ pend[d] = Idle
  /\ q.r \in BothReqs
  /\ rw' = v
  /\ out' = [e \in Clients |-> IF e = c THEN Answer(q)
                               ELSE IF e = d THEN Ret(v) ELSE None]
  /\ UNCHANGED <<sv, pend>>
  /\ Log([n |-> "both", c |-> c, q |-> q, d |-> d, v |-> v])

\* (the set depends on the state so that a new sample is drawn at every step)
Some(S, k) == IF Hist THEN LET T == {x \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T) ELSE S
SomeReqs == Some(Reqs, 6)
Next == \/ \E c \in Clients, q \in SomeReqs : Send(c, q) \/ SendSlow(c, q)
        \/ \E c, d \in Clients, q \in Some({q \in Reqs : q.r \in BothReqs}, 1), v \in Some(Vals, 1) : Both(c, d, q, v)
        \/ \E c \in Clients, ok \in BOOLEAN : Finish(c, ok)
        \/ \E c \in Clients, q \in Some(SlowReqs, 2) : SendSlow(c, q)
        \/ \E c \in Clients, ok \in Some(BOOLEAN, 1) : Finish(c, ok)

TypeOK == /\ rw \in Vals /\ sv \in Vals
\* Each step answers the client whose request was completed by the step and nobody else,
\* and a client is answered exactly when its request leaves the system
AnsweredOnce == [][ \A c \in Clients :
     (pend[c] # Idle /\ pend'[c] = Idle) => out'[c] # None ]_vars
NoSpurious == [][ \A c \in Clients :
     out'[c] # None => \/ (pend[c] # Idle /\ pend'[c] = Idle)
                       \/ (act'.n \in {"send", "both"} /\ pend'[c] = Idle) ]_vars
View == <<rw, sv, pend>>
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
