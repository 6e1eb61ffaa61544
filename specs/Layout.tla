------------------------------- MODULE Layout -------------------------------
(* The layout of a manager: which of its children are shown and where, and   *)
(* the connections between their ports. Hiding a child disconnects it.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, Randomization

CONSTANTS Vals,      \* what sinks may be set to
          Marks,     \* coordinates
          MaxOps, Files, Hist

Parts == 1..3
Sinks == {"b", "c", "i"}
\* the sources there are: what a sink is set to -> the child that has it and the type of signal
Src == [B1 |-> <<1, "bool">>, B2 |-> <<2, "bool">>, I2 |-> <<2, "int">>, I3 |-> <<3, "int">>, B3 |-> <<3, "bool">>]
TypeOf(s) == IF s = "i" THEN "int" ELSE "bool"
Off(s) == IF s = "c" THEN "" ELSE "ZERO"
Writable(p, s) == ~(p = 3 /\ s = "i")
Restored(s) == s = "b"                     \* part of a saved design


VARIABLES val,    \* what every sink is set to
          there,  \* the sinks a child has at the moment
          vis, pos,
          seen,   \* children the layout has been set for
          saved, ops, act, hist
vars == <<val, there, vis, pos, seen, saved, ops, act, hist>>
view == <<val, there, vis, pos, seen, saved, ops>>

\* the child a sink with this value is connected to, 0 for none
To(s, v) == IF v \in DOMAIN Src /\ Src[v][2] = TypeOf(s) THEN Src[v][1] ELSE 0
Joined(w, h) == {<<p, q>> \in Parts \X Parts : \E s \in h[p] : w[p][s] # Off(s) /\ To(s, w[p][s]) = q}

Obs == [val |-> [p \in Parts |-> [s \in Sinks |-> IF s \in there[p] THEN val[p][s] ELSE "none"]], vis |-> vis, pos |-> pos]
Log(a) == act' = a /\ ops' = ops + 1 /\ hist' = IF Hist THEN Append(hist, <<a, Obs'>>) ELSE hist

\* asked: what is said about each child before: "yes", "no" or "auto"
InitWith(w, asked) ==
  LET both == Joined(w, there)
      c == {e[1] : e \in both} \cup {e[2] : e \in both} IN
  vis = [p \in Parts |-> asked[p] = "yes" \/ (asked[p] = "auto" /\ p \in c)]

Some(T, k) == IF Hist THEN LET U == {z \in T : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(U) THEN k ELSE Cardinality(U), U) ELSE T
Blank == [p \in Parts |-> [s \in Sinks |-> Off(s)]]
Init ==
  /\ there = [p \in Parts |-> IF p = 2 THEN Sinks ELSE Sinks \ {"c"}]
  /\ pos = [p \in Parts |-> <<0, 0>>] /\ seen = {} /\ saved = [f \in Files |-> <<>>] /\ ops = 0
  /\ \E asked \in (IF Hist THEN RandomSubset(6, [Parts -> {"yes", "no", "auto"}]) ELSE [Parts -> {"yes", "no", "auto"}]) :
     \E m \in (IF Hist THEN RandomSubset(6, SUBSET (Parts \X Sinks)) ELSE {{}, {<<1, "b">>}, {<<2, "i">>, <<3, "b">>}}) :
     \E w \in (IF Hist THEN RandomSubset(6, [Parts \X Sinks -> Vals]) ELSE [Parts \X Sinks -> {"B2", "I3"}]) :
        /\ val = [p \in Parts |-> [s \in Sinks |-> IF <<p, s>> \in m THEN w[<<p, s>>] ELSE Off(s)]]
        /\ InitWith(val, asked)
        /\ act = [n |-> "init", asked |-> asked]
        /\ hist = IF Hist THEN <<<<act, Obs>>>> ELSE <<>>

Set(p, s, v) ==
  /\ s \in there[p] /\ v # val[p][s]
  /\ val' = [val EXCEPT ![p][s] = v]
  /\ UNCHANGED <<there, vis, pos, seen, saved>> /\ Log([n |-> "set", p |-> p, s |-> s, v |-> v])

\* a sink comes and goes with what the child is used for
Swap ==
  /\ there' = [there EXCEPT ![2] = IF "c" \in @ THEN @ \ {"c"} ELSE @ \cup {"c"}]
  /\ UNCHANGED <<val, vis, pos, seen, saved>> /\ Log([n |-> "swap", on |-> "c" \notin there[2]])

\* rows: child -> [x, y, v]; children not named stay as they are
Hides(rows) == {p \in DOMAIN rows : vis[p] /\ ~rows[p].v}
\* a child never shown that is not to be shown: sinks connected to it may be left or disconnected
Open(rows) == {p \in DOMAIN rows \ seen : ~vis[p] /\ ~rows[p].v}
Cut(w, rows, open) ==
  [p \in Parts |-> [s \in Sinks |->
     IF s \in there[p] /\ Writable(p, s) /\ (p \in Hides(rows) \/ To(s, w[p][s]) \in (Hides(rows) \cup open) \ {p}) THEN Off(s) ELSE w[p][s]]]
Place(rows) ==
  /\ vis' = [p \in Parts |-> IF p \in DOMAIN rows THEN rows[p].v ELSE vis[p]]
  /\ pos' = [p \in Parts |-> IF p \in DOMAIN rows THEN <<rows[p].x, rows[p].y>> ELSE pos[p]]
  /\ seen' = seen \cup DOMAIN rows
Clear(rows) == \A e \in Joined(val, there) : e[2] \notin Open(rows)
Put(rows, extra) ==
  /\ (Hist => Clear(rows))
  /\ \E open \in SUBSET Open(rows) : val' = Cut(val, rows, open)
  /\ Place(rows)
  /\ UNCHANGED <<there, saved>>
  /\ Log([n |-> "put", rows |-> {<<p, rows[p].x, rows[p].y, rows[p].v>> : p \in DOMAIN rows}, extra |-> extra])

Save(f) ==
  /\ saved' = [saved EXCEPT ![f] = <<[p \in Parts |-> [x |-> pos[p][1], y |-> pos[p][2], v |-> vis[p]]], val>>]
  /\ UNCHANGED <<val, there, vis, pos, seen>> /\ Log([n |-> "save", f |-> f])
\* the layout first, then what the children had
Load(f) ==
  /\ saved[f] # <<>>
  /\ LET rows == saved[f][1] IN
     /\ (Hist => Clear(rows))
     /\ \E open \in SUBSET Open(rows) :
          LET w == Cut(val, rows, open) IN
          val' = [p \in Parts |-> [s \in Sinks |-> IF Restored(s) /\ s \in there[p] THEN saved[f][2][p][s] ELSE w[p][s]]]
     /\ Place(rows)
  /\ UNCHANGED <<there, saved>> /\ Log([n |-> "load", f |-> f])

Wt(k) == IF Hist THEN 1..k ELSE {1}
Row == [x : Marks, y : Marks, v : BOOLEAN]
Rows == UNION {[S -> Row] : S \in SUBSET Parts}
Next ==
  \/ \E z \in Wt(6) : \E p \in Some(Parts, 1), s \in Some(Sinks, 1), v \in Some(Vals, 1) : Set(p, s, v)
  \/ \E z \in Wt(5) : \E S \in Some(SUBSET Parts, 2), e \in Some(BOOLEAN, 1) : \E r \in Some([S -> Row], 2) : Put(r, e)
  \/ Swap
  \/ \E f \in Files : Save(f)
  \/ \E f \in Files : Load(f)

\* ---- what must hold
\* nothing shown or hidden stays connected to a child that the layout has just hidden, nor does that child to anything
Severed == [][act'.n = "put" => \A p \in Parts : vis[p] /\ ~vis'[p] =>
                 /\ \A s \in there[p] : Writable(p, s) => val'[p][s] = Off(s)
                 /\ \A e \in Joined(val', there) : e[2] = p => \E s \in there[e[1]] : ~Writable(e[1], s) /\ To(s, val'[e[1]][s]) = p]_vars
\* only what had to do with a hidden child is disconnected
Spared == [][act'.n = "put" => \A p \in Parts : \A s \in Sinks : val'[p][s] # val[p][s] =>
                 val'[p][s] = Off(s) /\ (~vis'[p] \/ To(s, val[p][s]) \in {q \in Parts : ~vis'[q]})]_vars
\* showing or moving changes no setting
Shown == [][act'.n = "put" /\ (\A p \in Parts : vis'[p]) => val' = val]_vars
Back == [][act'.n = "load" => \A p \in Parts : val'[p]["b"] = saved[act'.f][2][p]["b"]
              /\ vis'[p] = saved[act'.f][1][p].v /\ pos'[p] = <<saved[act'.f][1][p].x, saved[act'.f][1][p].y>>]_vars
Bound == ops < MaxOps
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
