-------------------------------- MODULE CaPv --------------------------------
(* A block whose attributes and methods stand for PVs of a control system:   *)
(* values, alarms and time stamps that come in, connections that break,      *)
(* settings that go out, methods that write and wait for a status.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, Randomization

CONSTANTS Kinds,     \* sorts of attribute
          Sevs, MaxOps, Hist

(* A: one PV; B: PV 2 with read back PV 3; C: read only; D: may be absent; T: a table of two; M: a method; H: a method that may be absent *)
Attrs == {"A", "B", "C", "D"}
PVs == 1..11
Out == [A |-> 1, B |-> 2, C |-> 0, D |-> 7]
In == [A |-> 1, B |-> 3, C |-> 4, D |-> 7]
Needs(a) == IF a = "D" THEN {} ELSE {In[a]} \cup (IF Out[a] = 0 THEN {} ELSE {Out[a]})
Tab == {5, 6}
Must == UNION {Needs(a) : a \in Attrs} \cup Tab \cup {8, 9, 10}   \* 8: written by M, 9: its status, 10: its message; 11: written by H
Idx == 0..2

VARIABLES kind, pv, lab,    \* lab: which set of labels a choice PV has
          attr, tab, st, mon, hid, stamp, res, ops, act, hist
vars == <<kind, pv, lab, attr, tab, st, mon, hid, stamp, res, ops, act, hist>>
view == <<kind, pv, lab, attr, tab, st, mon, hid, res, ops>>

Gone == 4
\* what an attribute shows for a PV, given what it showed before
Show(q, old) == IF q.on THEN [v |-> q.v, sev |-> q.sev, t |-> q.t, l |-> old.l] ELSE [old EXCEPT !.sev = Gone, !.t = 0]
Worst(a, b) == IF a > b THEN a ELSE b
\* a table is only as good as all of its columns
Table(q, old) == IF q[5].on /\ q[6].on THEN [v |-> <<q[5].v, q[6].v>>, sev |-> Worst(q[5].sev, q[6].sev)] ELSE [old EXCEPT !.sev = Gone]

Obs == [attr |-> attr, tab |-> tab, st |-> st, hid |-> hid, res |-> res]
Log(a) == act' = a /\ ops' = ops + 1 /\ hist' = IF Hist THEN Append(hist, <<a, Obs'>>) ELSE hist

\* what every attribute that is listening shows after a change
Heard(q) ==
  /\ attr' = [a \in Attrs |-> IF mon[a] /\ q[In[a]] # pv[In[a]] THEN Show(q[In[a]], attr[a]) ELSE attr[a]]
  /\ tab' = IF mon.T /\ (q[5] # pv[5] \/ q[6] # pv[6]) THEN Table(q, tab) ELSE tab

Some(X, k) == IF Hist THEN LET U == {z \in X : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(U) THEN k ELSE Cardinality(U), U) ELSE X
Init ==
  /\ kind \in (IF Hist THEN RandomSubset(60, [Attrs -> Kinds]) ELSE [Attrs -> Kinds])
  /\ pv = [p \in PVs |-> [v |-> 0, sev |-> 0, on |-> TRUE, t |-> 1]]
  /\ lab = 0 /\ stamp = 1
  /\ attr = [a \in Attrs |-> [v |-> 0, sev |-> 0, t |-> 1, l |-> 0]]
  /\ tab = [v |-> <<0, 0>>, sev |-> 0]
  /\ st = "Ready" /\ mon = [a \in Attrs \cup {"T"} |-> TRUE] /\ hid = FALSE
  /\ res = <<>> /\ ops = 0 /\ act = [n |-> "init", kind |-> kind]
  /\ hist = IF Hist THEN <<<<act, Obs>>>> ELSE <<>>

Same == UNCHANGED <<kind, st, mon, hid>>
\* PVs change one or more times before anybody looks
Change(p, vs, sev) ==
  /\ pv[p].on /\ p \in 1..7
  /\ stamp' = stamp + 1
  /\ LET q == [pv EXCEPT ![p].v = vs[Len(vs)], ![p].sev = sev, ![p].t = stamp + 1] IN pv' = q /\ Heard(q)
  /\ res' = <<>> /\ UNCHANGED lab /\ Same /\ Log([n |-> "change", p |-> p, vs |-> vs, sev |-> sev, t |-> stamp + 1])
Drop(p) ==
  /\ pv[p].on
  /\ LET q == [pv EXCEPT ![p].on = FALSE] IN pv' = q /\ Heard(q)
  /\ res' = <<>> /\ UNCHANGED <<lab, stamp>> /\ Same /\ Log([n |-> "drop", p |-> p])
Return(p) ==
  /\ ~pv[p].on
  /\ LET q == [pv EXCEPT ![p].on = TRUE] IN pv' = q /\ Heard(q)
  /\ res' = <<>> /\ UNCHANGED <<lab, stamp>> /\ Same /\ Log([n |-> "return", p |-> p])
Relabel ==
  /\ lab' = 1 - lab /\ res' = <<>> /\ UNCHANGED <<pv, attr, tab, stamp>> /\ Same /\ Log([n |-> "relabel"])

\* write v; the device ends up at w. Not taken when disabled; the read back is what is shown when it returns
Put(a, v, w, fails) ==
  LET o == Out[a] i == In[a]
      ok == st # "Disabled" /\ o # 0 /\ pv[o].on /\ ~fails
      q == [pv EXCEPT ![o] = IF o = i THEN @ ELSE [@ EXCEPT !.v = v, !.t = stamp + 1],
                      ![i] = IF pv[i].on THEN [@ EXCEPT !.v = w, !.t = stamp + 1] ELSE @] IN
  /\ IF ok
     THEN /\ pv' = q /\ stamp' = stamp + 1
          /\ res' = <<IF pv[i].on \/ a = "D" THEN "ok" ELSE "error">>
          /\ attr' = [attr EXCEPT ![a] = IF pv[i].on \/ a = "D" THEN Show(q[i], @) ELSE @]
     ELSE /\ UNCHANGED <<pv, attr, stamp>> /\ res' = <<"error">>
  /\ UNCHANGED <<lab, tab>> /\ Same
  /\ Log([n |-> "put", a |-> a, v |-> v, w |-> w, fails |-> fails, sent |-> st # "Disabled" /\ o # 0, t |-> stamp + 1])

\* a method: writes, then waits for the status. before/after: what the status is when written, and shortly after
Call(before, after) ==
  /\ LET ok == st = "Ready" /\ pv[8].on IN
     res' = IF ~ok THEN <<"error", "">> ELSE IF "good" \in {before, after} THEN <<"ok", "">> ELSE <<"error", IF after = "same" THEN before ELSE after>>
  /\ st = "Ready" /\ pv[9].on /\ pv[10].on
  /\ UNCHANGED <<pv, lab, attr, tab, stamp>> /\ Same
  /\ Log([n |-> "call", before |-> before, after |-> after, sent |-> TRUE])

Disable ==
  /\ st # "Disabled" /\ st' = "Disabled" /\ mon' = [a \in DOMAIN mon |-> FALSE] /\ res' = <<>>
  /\ UNCHANGED <<kind, pv, lab, attr, tab, hid, stamp>> /\ Log([n |-> "disable"])
\* connect again to all: what cannot be connected to is a fault, unless it may be absent
Reset ==
  /\ st # "Ready"
  /\ LET got(a) == \A p \in Needs(a) : pv[p].on
         gotT == \A p \in Tab : pv[p].on
         fresh(a) == [Show(pv[In[a]], attr[a]) EXCEPT !.l = IF pv[In[a]].on THEN lab ELSE attr[a].l] IN
     /\ st' = IF \A p \in Must : pv[p].on THEN "Ready" ELSE "Fault"
     /\ mon' = [a \in DOMAIN mon |-> IF a = "T" THEN gotT ELSE got(a)]
     /\ attr' = [a \in Attrs |-> IF got(a) THEN fresh(a) ELSE attr[a]]
     /\ tab' = IF gotT THEN Table(pv, tab) ELSE tab
     /\ hid' = ~pv[11].on
  /\ res' = <<>> /\ UNCHANGED <<kind, pv, lab, stamp>> /\ Log([n |-> "reset"])

Wt(k) == IF Hist THEN 1..k ELSE {1}
Seqs == UNION {[1..n -> Idx] : n \in 1..3}
Rare(n) == Hist => RandomElement({z \in 1..n : Len(hist) >= 0}) = 1
Next ==
  \/ \E z \in Wt(5) : \E p \in Some(1..7, 2), vs \in Some(IF Hist THEN Seqs ELSE [1..1 -> Idx], 1), s \in Some(Sevs, 1) : Change(p, vs, s)
  \/ \E z \in Wt(2) : \E p \in Some(PVs, 1) : Drop(p)
  \/ \E z \in Wt(2) : \E p \in Some(PVs, 4) : Return(p)
  \/ Rare(2) /\ Relabel
  \/ \E z \in Wt(4) : \E a \in Some(Attrs, 1), v \in Some(Idx, 1), w \in Some(Idx, 1) : \E f \in BOOLEAN : (f => Rare(3)) /\ Put(a, v, w, f)
  \/ \E b \in {"good", "bad", "worse"}, c \in {"good", "bad", "same"} : Rare(6) /\ Call(b, c)
  \/ Rare(2) /\ Disable
  \/ \E z \in Wt(2) : Reset

\* ---- what must hold
\* an attribute that is listening is never behind and never hides that its PV is gone
Mirror == \A a \in Attrs : mon[a] => IF pv[In[a]].on THEN attr[a].v = pv[In[a]].v /\ attr[a].sev = pv[In[a]].sev ELSE attr[a].sev = Gone
MirrorTab == mon.T => (tab.sev = Gone <=> (~pv[5].on \/ ~pv[6].on)) /\ (tab.sev # Gone => tab.v = <<pv[5].v, pv[6].v>> /\ tab.sev = Worst(pv[5].sev, pv[6].sev))
Ready == st = "Ready" => \A a \in DOMAIN mon : mon[a]
Silent == [][st = "Disabled" /\ st' = "Disabled" => attr' = attr /\ tab' = tab]_vars
Bound == ops < MaxOps
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
