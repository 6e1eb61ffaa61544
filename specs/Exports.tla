------------------------------ MODULE Exports ------------------------------
(* Fields of two children exported by a manager, and fields of that manager exported by a second *)
(* one. x1/x2 are the copies the managers keep: they are updated change by change, and rebuilt   *)
(* when the exports, the visibility or the set of fields change.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
CONSTANTS V, N1, N2, Hist
VARIABLES S,     \* source -> [ty, v, al, de, tg, lb]
          e1, e2,       \* export tables: sequences of <<source, name>>
          vis,          \* <<child 1 in the manager, child 2 in the manager, the manager in the second one>>
          x1, x2,       \* name -> copy, or None
          act, hist
vars == <<S, e1, e2, vis, x1, x2, act, hist>>
View == <<S, e1, e2, vis, x1, x2>>
Srcs == {<<1, "v">>, <<1, "c">>, <<1, "m">>, <<1, "d">>, <<2, "v">>, <<2, "m">>, <<2, "d">>}
Dyn == {<<1, "d">>, <<2, "d">>}
None == [ty |-> "none", v |-> 0, al |-> 0, de |-> 0, tg |-> 0, lb |-> 0]
Fresh(t) == [None EXCEPT !.ty = t]
Types == {"num", "str", "meth", "table"}
TypeOf(s) == CASE s[2] = "v" -> "num" [] s[2] = "c" -> "choice" [] s[2] = "m" -> "meth" [] OTHER -> "none"
IsAttr(r) == r.ty \in {"num", "str", "choice", "table"}
\* the label of a copy is made from its name, tags that only matter in the source are dropped
Copy(r) == [r EXCEPT !.lb = 0, !.tg = IF @ = 2 THEN 0 ELSE @]
RowsFor(e, n) == {i \in 1..Len(e) : e[i][2] = n}
SrcOf(e, n) == e[CHOOSE i \in RowsFor(e, n) : TRUE][1]
Build1(s, e, vs) == [n \in N1 |-> IF RowsFor(e, n) = {} THEN None
                                  ELSE LET q == SrcOf(e, n) IN IF vs[q[1]] THEN Copy(s[q]) ELSE None]
Build2(x, e, vs) == [n \in N2 |-> IF RowsFor(e, n) = {} THEN None
                                  ELSE IF vs[3] THEN Copy(x[SrcOf(e, n)]) ELSE None]
\* what the managers do when one source changes (fields do not come and go)
Follow1(q, r) == [n \in N1 |-> IF x1[n].ty # "none" /\ RowsFor(e1, n) # {} /\ SrcOf(e1, n) = q THEN Copy(r) ELSE x1[n]]
Follow2(x) == [n \in N2 |-> IF x2[n].ty # "none" /\ RowsFor(e2, n) # {} THEN Copy(x[SrcOf(e2, n)]) ELSE x2[n]]

Log(r, res, got) ==
  /\ act' = r
  /\ hist' = IF Hist THEN Append(hist, <<r, [        f1 |-> {<<n, SrcOf(e1', n), x1'[n]>> : n \in {m \in N1 : x1'[m].ty # "none"}},
        f2 |-> {<<n, SrcOf(e2', n), x2'[n]>> : n \in {m \in N2 : x2'[m].ty # "none"}},
        res |-> res, got |-> got]>>) ELSE hist

Init == /\ S = [q \in Srcs |-> Fresh(TypeOf(q))]
        /\ e1 = <<>> /\ e2 = <<>> /\ vis = <<TRUE, TRUE, TRUE>>
        /\ x1 = [n \in N1 |-> None] /\ x2 = [n \in N2 |-> None]
        /\ act = [n |-> "init"] /\ hist = <<>>

Mirror(q, r) == /\ S' = [S EXCEPT ![q] = r] /\ x1' = Follow1(q, r) /\ x2' = Follow2(x1') /\ UNCHANGED <<e1, e2, vis>>
\* the source changes: its value, its alarm, its description, tags or label; several of these at once
Set(q, v, al) ==
  /\ IsAttr(S[q]) /\ Mirror(q, [S[q] EXCEPT !.v = v, !.al = al])
  /\ Log([n |-> "set", q |-> q, v |-> v, al |-> al], "ok", {})
Alarm(q, al) ==
  /\ IsAttr(S[q]) /\ Mirror(q, [S[q] EXCEPT !.al = al])
  /\ Log([n |-> "alarm", q |-> q, al |-> al], "ok", {})
Meta(q, f, k) ==
  /\ S[q].ty # "none"
  /\ Mirror(q, CASE f = "de" -> [S[q] EXCEPT !.de = k] [] f = "tg" -> [S[q] EXCEPT !.tg = k] [] OTHER -> [S[q] EXCEPT !.lb = k])
  /\ Log([n |-> "meta", q |-> q, f |-> f, k |-> k], "ok", {})
Burst(q, v, al, k) ==
  /\ IsAttr(S[q]) /\ Mirror(q, [S[q] EXCEPT !.v = v, !.al = al, !.de = k, !.tg = k])
  /\ Log([n |-> "burst", q |-> q, v |-> v, al |-> al, k |-> k], "ok", {})
\* a field comes, goes, or is replaced (one change, or a removal and an addition)
Come(q, t, sq) ==
  /\ q \in Dyn /\ (t = "none" => S[q].ty # "none")
  /\ S' = [S EXCEPT ![q] = Fresh(t)]
  /\ x1' = Build1(S', e1, vis) /\ x2' = Build2(x1', e2, vis) /\ UNCHANGED <<e1, e2, vis>>
  /\ Log([n |-> "come", q |-> q, t |-> t, sq |-> sq], "ok", {})

OkRows(e) == \A i \in 1..Len(e) : S[e[i][1]].ty # "none"
Export(e) ==
  /\ OkRows(e) /\ e1' = e /\ x1' = Build1(S, e, vis) /\ x2' = Build2(x1', e2, vis)
  /\ UNCHANGED <<S, e2, vis>>
  /\ Log([n |-> "export", e |-> e], "ok", {})
ExportBad(e) ==
  /\ ~OkRows(e) /\ UNCHANGED <<S, e1, e2, vis, x1, x2>>
  /\ Log([n |-> "export", e |-> e], "err", {})
OkRows2(e) == \A i \in 1..Len(e) : x1[e[i][1]].ty # "none"
Export2(e) ==
  /\ OkRows2(e) /\ e2' = e /\ x2' = Build2(x1, e, vis) /\ UNCHANGED <<S, e1, vis, x1>>
  /\ Log([n |-> "export2", e |-> e], "ok", {})
Show(i, b) ==
  /\ vis' = [vis EXCEPT ![i] = b] /\ x1' = Build1(S, e1, vis') /\ x2' = Build2(x1', e2, vis')
  /\ UNCHANGED <<S, e1, e2>>
  /\ Log([n |-> "show", i |-> i, b |-> b], "ok", {})
\* the exports are edited while the source keeps changing, ending at v
Race(e, q, v) ==
  /\ OkRows(e) /\ IsAttr(S[q]) /\ S' = [S EXCEPT ![q].v = v, ![q].al = 0]
  /\ e1' = e /\ x1' = Build1(S', e, vis) /\ x2' = Build2(x1', e2, vis) /\ UNCHANGED <<e2, vis>>
  /\ Log([n |-> "race", e |-> e, q |-> q, v |-> v], "ok", {})

\* where a write or a call made through a name of manager m ends up
Target(m, nm) == IF m = 1 THEN (IF x1[nm].ty = "none" THEN <<>> ELSE <<SrcOf(e1, nm)>>)
                 ELSE IF x2[nm].ty = "none" THEN <<>> ELSE <<SrcOf(e1, SrcOf(e2, nm))>>
XPut(m, nm, v, refuse) ==
  LET t == Target(m, nm) IN
  /\ t # <<>> => IsAttr(S[t[1]])
  /\ IF t = <<>> \/ refuse
     THEN UNCHANGED <<S, e1, e2, vis, x1, x2>> /\ Log([n |-> "xput", m |-> m, nm |-> nm, v |-> v, refuse |-> refuse], "err", {})
     ELSE /\ Mirror(t[1], [S[t[1]] EXCEPT !.v = v, !.al = 0])
          /\ Log([n |-> "xput", m |-> m, nm |-> nm, v |-> v, refuse |-> refuse], "ok", {<<t[1], v>>})
XCall(m, nm, v, refuse) ==
  LET t == Target(m, nm) IN
  /\ t # <<>> => S[t[1]].ty = "meth"
  /\ UNCHANGED <<S, e1, e2, vis, x1, x2>>
  /\ IF t = <<>> \/ refuse
     THEN Log([n |-> "xcall", m |-> m, nm |-> nm, v |-> v, refuse |-> refuse], "err", {})
     ELSE Log([n |-> "xcall", m |-> m, nm |-> nm, v |-> v, refuse |-> refuse], "ok", {<<t[1], v>>})
\* the source is called directly
Call(q, v) ==
  /\ S[q].ty = "meth" /\ UNCHANGED <<S, e1, e2, vis, x1, x2>>
  /\ Log([n |-> "call", q |-> q, v |-> v], "ok", {<<q, v>>})
\* the manager is disabled, a source changes, the manager is reset
Cycle(q, v) ==
  /\ IsAttr(S[q]) /\ Mirror(q, [S[q] EXCEPT !.v = v, !.al = 0])
  /\ Log([n |-> "cycle", q |-> q, v |-> v], "ok", {})

Some(T, k) == IF Hist THEN LET U == {z \in T : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(U) THEN k ELSE Cardinality(U), U) ELSE T
W(k) == IF Hist THEN 1..k ELSE {1}
There == {q \in Srcs : S[q].ty # "none"}
Attrs == {q \in Srcs : IsAttr(S[q])}
Used1 == {e1[i][1] : i \in 1..Len(e1)}
\* mostly something that is exported
PickA == LET U == Used1 \cap Attrs IN IF Hist THEN Some(Attrs, 1) \cup Some(U, 2) ELSE Attrs
Rows == {<<q, n>> : q \in Srcs, n \in N1}
RowsThere == {r \in Rows : S[r[1]].ty # "none"}
Distinct(R) == \A r \in R, s \in R : r[2] = s[2] => r = s
Seqs(R) == LET r == CHOOSE z \in R : TRUE IN
           IF R = {} THEN <<>> ELSE IF Cardinality(R) = 1 THEN <<r>>
           ELSE IF Cardinality(R) = 2 THEN <<r, CHOOSE z \in R \ {r} : TRUE>>
           ELSE LET z == CHOOSE z \in R \ {r} : TRUE IN <<r, z, CHOOSE y \in R \ {r, z} : TRUE>>
\* at most one row for each name
PickE(R) == IF Hist THEN {Seqs(UNION {Some({r \in R : r[2] = n}, 1) : n \in Some({r[2] : r \in R}, k)}) : k \in Some(0..3, 1)}
            ELSE {Seqs(T) : T \in {U \in SUBSET R : Cardinality(U) <= 2 /\ Distinct(U)}}
Rows2 == {<<a, n>> : a \in {m \in N1 : x1[m].ty # "none"}, n \in N2}
Names(m) == IF m = 1 THEN {n \in N1 : x1[n].ty # "none"} ELSE {n \in N2 : x2[n].ty # "none"}
\* mostly a name that is there
PickN(m) == IF Hist THEN Some(Names(m), 2) \cup Some(IF m = 1 THEN N1 ELSE N2, 1) ELSE (IF m = 1 THEN N1 ELSE N2)
Next ==
  \/ \E z \in W(3) : \E q \in PickA, v \in Some(V, 1), al \in Some(0..2, 1) : Set(q, v, al)
  \/ \E q \in PickA, al \in Some(0..2, 1) : Alarm(q, al)
  \/ \E z \in W(2) : \E q \in Some(There, 2), f \in Some({"de", "tg", "lb"}, 1), k \in Some(0..2, 1) : Meta(q, f, k)
  \/ \E z \in W(2) : \E q \in PickA, v \in Some(V, 1), al \in Some(0..2, 1), k \in Some(0..2, 1) : Burst(q, v, al, k)
  \/ \E z \in W(3) : \E q \in Some(Dyn, 1), t \in Some(Types \cup {"none"}, 1), sq \in Some(BOOLEAN, 1) : Come(q, t, sq)
  \/ \E z \in W(3) : \E e \in Some(PickE(RowsThere), 1) : Export(e)
  \/ \E e \in Some(PickE(Rows), 1) : ExportBad(e)
  \/ \E z \in W(2) : \E e \in Some(PickE(Rows2), 1) : Export2(e)
  \/ \E z \in W(2) : \E i \in Some(1..3, 1), b \in Some(BOOLEAN, 1) : Show(i, b)
  \/ \E e \in Some(PickE(RowsThere), 1), q \in PickA, v \in Some(V, 1) : Race(e, q, v)
  \/ \E z \in W(2) : \E m \in Some({1, 2}, 1) : \E nm \in PickN(m), v \in Some(V, 1), r \in Some({TRUE, FALSE}, 1) : XPut(m, nm, v, r)
  \/ \E z \in W(2) : \E m \in Some({1, 2}, 1) : \E nm \in PickN(m), v \in Some(V, 1), r \in Some({TRUE, FALSE}, 1) : XCall(m, nm, v, r)
  \/ \E q \in Some({p \in There : S[p].ty = "meth"}, 1), v \in Some(V, 1) : Call(q, v)
  \/ \E q \in PickA, v \in Some(V, 1) : Cycle(q, v)

\* ---- what must hold
Exact == x1 = Build1(S, e1, vis) /\ x2 = Build2(x1, e2, vis)
Gone == \A n \in N1 : x1[n].ty # "none" => (RowsFor(e1, n) # {} /\ vis[SrcOf(e1, n)[1]] /\ S[SrcOf(e1, n)].ty # "none")
Chain == \A n \in N2 : x2[n].ty # "none" => (vis[3] /\ x1[SrcOf(e2, n)].ty # "none" /\ x2[n].v = S[SrcOf(e1, SrcOf(e2, n))].v)
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
\* small bounds: two sources that come and go
McSrc == {<<1, "v">>, <<1, "d">>, <<2, "m">>}
McRows == {r \in RowsThere : r[1] \in McSrc}
McNext ==
  \/ \E q \in McSrc \cap Attrs, v \in V : Set(q, v, 0)
  \/ \E q \in McSrc \cap Attrs : Meta(q, "tg", 2)
  \/ \E t \in {"num", "meth", "none"} : Come(<<1, "d">>, t, TRUE)
  \/ \E e \in PickE(McRows) : Export(e)
  \/ \E e \in {<<>>} \cup {<<r>> : r \in Rows2} : Export2(e)
  \/ \E i \in {1, 3}, b \in BOOLEAN : Show(i, b)
  \/ \E m \in {1, 2} : \E nm \in (IF m = 1 THEN N1 ELSE N2), v \in V, r \in BOOLEAN : XPut(m, nm, v, r) \/ XCall(m, nm, v, r)
  \/ \E q \in McSrc \cap Attrs, v \in V : Cycle(q, v)
=============================================================================
