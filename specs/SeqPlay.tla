------------------------------ MODULE SeqPlay -------------------------------
(* SeqTables with hardware that plays: model checked at small sizes for what *)
(* comes out, and simulated for scan requests and switch points.             *)
EXTENDS SeqTables, Json, IOUtils, Randomization
CONSTANTS Kinds, Cs, Ns, Hist
VARIABLES req, played, nxt, act, hist
vars == <<core, req, played, nxt, act, hist>>

-----------------------------------------------------------------------------
(* small: every table that fits, every switch point *)
Seg == {[k |-> k, c |-> n * m, n |-> n, mx |-> m, mn |-> m, sh |-> FALSE] : k \in Kinds, n \in 1..MaxRows, m \in 0..MaxRep}
       \cup {[k |-> k, c |-> 1, n |-> 1, mx |-> 1, mn |-> 1, sh |-> TRUE] : k \in Kinds}
Segs == {<<a>> : a \in Seg} \cup {<<a, b>> : a, b \in Seg}
Reqs == LET E == [k : Kinds, c : Cs \ {0}] IN
        {<<a>> : a \in E} \cup {<<a, b>> : a, b \in E}
        \cup {<<a, [k |-> z, c |-> 0]>> : a \in E, z \in Kinds}
MCNext ==
  \/ phase = "off" /\ \E r \in Reqs : Configure(r) /\ req' = r /\ played' = <<>> /\ nxt' = "A"
  \/ \E t \in Tab, s \in Segs : Write(t, s) /\ UNCHANGED <<req, played, nxt>>
  \/ Run /\ UNCHANGED <<req, played, nxt>>
  \/ cur = "-" /\ Play(nxt) /\ played' = played \o tab[nxt] /\ UNCHANGED <<req, nxt>>
  \/ Settled /\ cur # "-" /\ (\A i \in 1..Len(tab[cur]) : tab[cur][i].c # 0)
     /\ Stop(cur) /\ nxt' = Other(cur) /\ UNCHANGED <<req, played>>
NextMC == MCNext /\ UNCHANGED <<act, hist>>
\* how often each prefix of kinds has been played: compare with the request in run lengths
RECURSIVE Norm(_)
Norm(s) == IF s = <<>> THEN <<>>
           ELSE LET t == Norm(Tail(s)) IN
                IF t # <<>> /\ t[1].k = s[1].k /\ s[1].c # 0 /\ t[1].c # 0
                THEN <<[k |-> s[1].k, c |-> s[1].c + t[1].c]>> \o Tail(t)
                ELSE <<[k |-> s[1].k, c |-> s[1].c]>> \o t
Prefix(a, b) == /\ Len(a) <= Len(b)
                /\ \A i \in 1..Len(a) : a[i].k = b[i].k /\ IF i < Len(a) THEN a[i].c = b[i].c ELSE
                     (a[i].c = b[i].c \/ (b[i].c # 0 /\ a[i].c # 0 /\ a[i].c <= b[i].c))
InOrder == Prefix(Norm(played), Norm(req))
\* when both tables have been played and nothing is left, all of it has been played
AllDone == (phase = "run" /\ rem = <<>> /\ ~fresh["A"] /\ ~fresh["B"] /\ cur = "-" /\ (owed["A"] \/ owed["B"]))
              => Norm(played) = Norm(req)
InitMC == InitCore /\ req = <<>> /\ played = <<>> /\ nxt = "A" /\ act = [n |-> "init"] /\ hist = <<>>
-----------------------------------------------------------------------------
(* big: requests and switch points for the real code *)
Some(S, k) == LET T == {x \in S : Len(hist) >= 0} IN
              RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T)
One(S) == CHOOSE x \in Some(S, 1) : TRUE
Entry == [k : Kinds, c : Cs, n : Ns, long : BOOLEAN]
Entries(m) == IF m = 1 THEN {<<a>> : a \in Some(Entry, 1)}
              ELSE IF m = 2 THEN {<<a, b>> : a, b \in Some(Entry, 2)}
              ELSE {<<a, b, c>> : a, b, c \in Some(Entry, 2)}
Emit(a) == act' = a /\ hist' = Append(hist, <<a, 0>>) /\ UNCHANGED <<core, req, played, nxt>>
NextSim ==
  \/ /\ act.n \in {"init", "clean"}
     /\ \/ \E m \in 1..3 : \E e \in Some(Entries(m), 1) : \E f \in Some(Entries(2), 1) : \E g \in Some(Entries(1), 1) :
           Emit([n |-> "cfg", chunks |-> Some({<<e>>, <<e, f>>, <<e, f, g>>, <<f, g, e>>}, 1), fin |-> RandomElement({z \in BOOLEAN : Len(hist) >= 0})])
        \/ \E kind \in {"time", "gate", "pcomp"}, nx \in Some({2, 3, 99, 700, 2499, 4095, 4096, 4097, 5000, 5001, 9999}, 1),
              ny \in Some(1..8, 1), from \in Some({0, 1, 3}, 1) :
              Emit([n |-> "scan", kind |-> kind, nx |-> nx, ny |-> ny, from |-> from, long |-> RandomElement({z \in BOOLEAN : Len(hist) >= 0})])
  \/ act.n \in {"cfg", "scan"} /\ Emit([n |-> "run"])
  \/ act.n \in {"run", "switch"} /\ \E z \in 1..6 : Emit([n |-> "switch", o |-> z % 2])
  \/ act.n \in {"run", "switch", "cfg"} /\ RandomElement({z \in 1..4 : Len(hist) >= 0}) = 1 /\ Emit([n |-> "clean"])
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
