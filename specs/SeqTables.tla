----------------------------- MODULE SeqTables ------------------------------
(* Two sequencer tables played in turn, each filled again while the other    *)
(* plays.  Rows are identified by their kind (everything but the repeats);   *)
(* a request is a sequence of [k, c]: kind k, c times (0: for ever).         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxRows, MaxRep
Tab == {"A", "B"}
Other(t) == IF t = "A" THEN "B" ELSE "A"
VARIABLES rem,      \* what of the request has not been written to a table yet
          tab,      \* table -> what it holds, a sequence of segments
          fresh,    \* table -> holds something not played yet
          owed,     \* table -> has stopped playing and not been filled again
          cur,      \* table playing now, or "-"
          phase     \* "off" | "set" (being configured) | "run"
core == <<rem, tab, fresh, owed, cur, phase>>

(* A segment is rows of one kind in a row: [k, c: repeats in all, n: rows,   *)
(* mx, mn: most and least repeats of a row, sh: time taken off for the       *)
(* switch].                                                                  *)
Bad == <<[k |-> 0, c |-> 0]>>
SegOK(s, last) ==
  /\ s.n >= 1 /\ s.mx <= MaxRep /\ s.mn <= s.mx /\ s.c <= s.n * s.mx /\ s.c >= s.n * s.mn
  /\ s.sh => last /\ s.n = 1 /\ s.c = 1
RECURSIVE Take(_, _)
Take(r, segs) ==
  IF segs = <<>> THEN r
  ELSE IF r = <<>> THEN Bad
  ELSE LET s == Head(segs)  h == Head(r) IN
       IF s.k # h.k \/ ~SegOK(s, Len(segs) = 1) THEN Bad
       ELSE IF h.c = 0 THEN (IF s.c = 0 /\ s.n = 1 THEN Take(Tail(r), Tail(segs)) ELSE Bad)
       ELSE IF s.mn = 0 \/ s.c > h.c THEN Bad
       ELSE Take((IF s.c = h.c THEN <<>> ELSE <<[h EXCEPT !.c = @ - s.c]>>) \o Tail(r), Tail(segs))
RECURSIVE Rows(_)
Rows(segs) == IF segs = <<>> THEN 0 ELSE Head(segs).n + Rows(Tail(segs))

\* may these segments be written next, given what remains?
Fits(segs) ==
  LET r == Take(rem, segs) IN
  /\ segs # <<>> /\ r # Bad /\ Rows(segs) <= MaxRows
  \* a table that another follows ends in one pulse that makes up for the time of the switch
  /\ r # <<>> => segs[Len(segs)].sh

Configure(req) ==
  /\ phase' = "set" /\ rem' = req /\ owed' = [t \in Tab |-> FALSE] /\ fresh' = [t \in Tab |-> FALSE]
  /\ cur' = "-" /\ tab' = [t \in Tab |-> <<>>]
Write(t, segs) ==
  /\ Fits(segs)
  /\ \/ phase = "set" /\ t = (IF fresh["A"] THEN "B" ELSE "A") /\ ~fresh[t]
     \/ phase = "run" /\ owed[t] /\ cur # t
  /\ rem' = Take(rem, segs) /\ tab' = [tab EXCEPT ![t] = segs]
  /\ fresh' = [fresh EXCEPT ![t] = TRUE] /\ owed' = [owed EXCEPT ![t] = FALSE]
  /\ UNCHANGED <<cur, phase>>
\* as much as can be held has been written
Filled == rem = <<>> \/ (fresh["A"] /\ fresh["B"])
Run == phase = "set" /\ Filled /\ phase' = "run" /\ UNCHANGED <<rem, tab, fresh, owed, cur>>
Play(t) == /\ phase = "run" /\ cur = "-" /\ fresh[t]
           /\ cur' = t /\ fresh' = [fresh EXCEPT ![t] = FALSE] /\ UNCHANGED <<rem, tab, owed, phase>>
Stop(t) == /\ phase = "run" /\ cur = t /\ cur' = "-"
           /\ owed' = [owed EXCEPT ![t] = TRUE] /\ UNCHANGED <<rem, tab, fresh, phase>>
Clean == phase' = "off" /\ rem' = <<>> /\ cur' = "-" /\ UNCHANGED <<tab, fresh, owed>>
\* nothing is left to do until the hardware moves
Settled == phase = "run" => \A t \in Tab : owed[t] => rem = <<>>
InitCore == /\ rem = <<>> /\ tab = [t \in Tab |-> <<>>] /\ fresh = [t \in Tab |-> FALSE]
            /\ owed = [t \in Tab |-> FALSE] /\ cur = "-" /\ phase = "off"
=============================================================================
