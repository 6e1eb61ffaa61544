-------------------------------- MODULE Prof --------------------------------
(* A trajectory for a motion controller: what may be written for a range of scan points, in batches,  *)
(* and how far it says it is. A row is a run of joined points; its path h is the positions at the     *)
(* start, middle, join, middle, ..., end of the points, half a duration apart. Times are in ticks.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Tol       \* positions closer than this are the same
VARIABLES sc,       \* the scan: rows, dur, every, gate, gaps, vmax, from, mb (biggest batch)
          mode,     \* "off", "start", "row", "gap", "tail", "end"
          r, t, j,  \* which row, how long in it (or in the gap), halves passed
          last,     \* where the last point was
          nb,       \* batches in this row
          prog,     \* steps completed after each point
          todo,     \* points of the batch still to be told
          scanned
core == <<sc, mode, r, t, j, last, nb, prog, todo, scanned>>
\* outputs: nothing, live, dead, middle, zero
Live == 1  Dead == 2  Mid == 4  Zero == 8  No == 0
OutStart == IF sc.every \/ sc.gate THEN Live ELSE No
OutEnd == IF sc.every THEN Dead ELSE IF sc.gate THEN Zero ELSE No
OutTurn == IF sc.every THEN Zero ELSE No
OutHalf(k) == IF ~sc.every THEN No ELSE IF k % 2 = 1 THEN Mid ELSE Live
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, e) == Len(x) = Len(y) /\ \A a \in 1..Len(x) : Abs(x[a] - y[a]) <= e
Row(i) == sc.rows[i]
Halves == Len(Row(r)) - 1
Slack == nb + 1     \* ticks: each batch is rounded on its own
\* where the line from x (0) to y (n) is at m
On(x, y, m, n) == LET q == IF n > 1000000 THEN 1000 ELSE 1
                      f == ((m \div q) * 1000) \div (n \div q) IN
                  [a \in 1..Len(x) |-> x[a] + (IF Abs(y[a] - x[a]) < 1000000 THEN ((y[a] - x[a]) * f) \div 1000 ELSE ((y[a] - x[a]) \div 1000) * f)]
Fuzz(x, y) == IF Len(x) = 0 THEN Tol ELSE Tol + 1 + (CHOOSE m \in {Abs(x[a] - y[a]) : a \in 1..Len(x)} : \A a \in 1..Len(x) : m >= Abs(x[a] - y[a])) \div 400
\* how far in so many ticks at so much per 1000 ticks
Reach(v, d) == LET m == IF d > 200000 THEN v * (d \div 1000 + 1) ELSE (v * d) \div 1000 IN m + m \div 50 + 3
InitCore == sc = [every |-> FALSE] /\ mode = "off" /\ r = 0 /\ t = 0 /\ j = 0 /\ last = <<>> /\ nb = 0 /\ prog = <<>> /\ todo = 0 /\ scanned = 0

Configure(s) ==
  /\ todo = 0 /\ sc' = s /\ mode' = "start" /\ r' = 0 /\ t' = 0 /\ j' = 0 /\ last' = <<>> /\ nb' = 0 /\ prog' = <<>> /\ scanned' = 0 /\ UNCHANGED todo
Batch(n) ==
  /\ mode \notin {"off", "end"} /\ todo = 0 /\ n >= 1 /\ n <= sc.mb
  /\ todo' = n /\ nb' = nb + 1 /\ UNCHANGED <<sc, mode, r, t, j, last, prog, scanned>>
RECURSIVE Before(_)
Before(i) == IF i = 0 THEN 0 ELSE (Len(Row(i)) - 1) \div 2 + Before(i - 1)
Told(m, rr, jj) ==
  /\ mode' = m /\ r' = rr /\ j' = jj /\ todo' = todo - 1
  /\ prog' = Append(prog, sc.from + Before(rr - 1) + jj \div 2) /\ UNCHANGED <<sc, scanned>>
\* halves between here and then are passed in a straight line
Straight(p, k) == \A i \in (j + 1)..(k - 1) : Near(Row(r)[i + 1], On(last, p.x, (i * sc.dur) \div 2 - t, p.dt), Fuzz(last, p.x))
Point(p) ==
  /\ todo > 0 /\ p.dt >= 1
  /\ \/ /\ mode = "start" /\ p.o = OutStart /\ Near(p.x, Row(1)[1], Tol)
        /\ t' = 0 /\ last' = p.x /\ nb' = 1 /\ Told("row", 1, 0)
     \/ /\ mode = "row"
        /\ LET u == t + p.dt
               k == (2 * u + 2 * Slack) \div sc.dur IN
           IF Abs(2 * u - k * sc.dur) <= 2 * Slack
           THEN \* one of the halves
                /\ k > j /\ k <= Halves /\ (sc.every => k = j + 1)
                /\ Near(p.x, Row(r)[k + 1], Tol) /\ Straight(p, k)
                /\ p.o = (IF k = Halves THEN OutEnd ELSE OutHalf(k))
                /\ last' = p.x /\ UNCHANGED nb
                /\ IF k = Halves THEN t' = 0 /\ Told(IF r = Len(sc.rows) THEN "tail" ELSE "gap", r, k)
                   ELSE t' = u /\ Told("row", r, k)
           ELSE \* in between, to keep the moves short
                /\ 2 * u < Halves * sc.dur /\ k >= j /\ (sc.every => k = j) /\ p.o = No
                /\ Near(p.x, On(Row(r)[k + 1], Row(r)[k + 2], u - (k * sc.dur) \div 2, sc.dur \div 2), Fuzz(Row(r)[k + 1], Row(r)[k + 2]))
                /\ Straight(p, k + 1) /\ t' = u /\ last' = p.x /\ UNCHANGED nb /\ Told("row", r, k)
     \/ /\ mode = "gap" /\ \A a \in 1..Len(last) : Abs(p.x[a] - last[a]) <= Reach(sc.vmax[a], p.dt)
        /\ last' = p.x
        /\ \/ p.o \in {OutTurn, No} /\ t' = t + p.dt /\ UNCHANGED nb /\ Told("gap", r, j)
           \/ /\ p.o = OutStart /\ Near(p.x, Row(r + 1)[1], Tol) /\ t + p.dt + Slack >= sc.gaps[r]
              /\ t' = 0 /\ nb' = 1 /\ Told("row", r + 1, 0)
     \/ /\ mode = "tail" /\ p.o \in {OutTurn, No} /\ last' = p.x /\ t' = t + p.dt /\ UNCHANGED nb
        /\ Told(IF p.v = 3 THEN "end" ELSE "tail", r, j)
\* the controller has done k points in total and the software has heard of it: it says how far it is,
\* and there is more to do, or it is all there
Scan(k, rep) ==
  /\ todo = 0 /\ k >= scanned /\ k <= Len(prog) /\ scanned' = k
  /\ (k > 0 => rep \in (IF sc.every THEN {prog[k]} ELSE {-1, prog[k]}))
  /\ UNCHANGED <<sc, mode, r, t, j, last, nb, prog, todo>>
Fed == todo = 0 /\ (mode = "end" \/ scanned < Len(prog))
Done == mode = "end" /\ todo = 0 /\ scanned = Len(prog) /\ prog[scanned] = sc.from + Before(Len(sc.rows))
Off == todo = 0 /\ mode' = "off" /\ UNCHANGED <<sc, r, t, j, last, nb, prog, todo, scanned>>
=============================================================================
