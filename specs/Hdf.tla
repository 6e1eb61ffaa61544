-------------------------------- MODULE Hdf --------------------------------
(* A file writer in a scan: frames arrive, are written, runs are paused and rewound, frames stop. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
CONSTANTS Shapes,  \* number of steps of the sections, as digits
          MaxCap, Hist
VARIABLES st,
          secs,      \* where the sections end
          step,      \* completed steps
          lo, hi,    \* where the run began, where it ends
          cap, cap0, \* frames in the file: now, when the run began
          arr,       \* frames that arrived in this run
          first,     \* a frame has arrived since configure or the last rewind, or in this section
          age,       \* time since the last frame was written
          act, hist
vars == <<st, secs, step, lo, hi, cap, cap0, arr, first, age, act, hist>>
View == <<st, secs, step, lo, hi, cap, cap0, arr, first, age>>
SecOf(n) == CASE n = 3 -> <<3>> [] n = 5 -> <<5>> [] n = 21 -> <<2, 3>> [] n = 32 -> <<3, 5>> [] n = 123 -> <<1, 3, 6>> [] n = 222 -> <<2, 4, 6>> [] OTHER -> <<1>>
Total == secs[Len(secs)]
EndOf(g) == secs[CHOOSE i \in 1..Len(secs) : g < secs[i] /\ (i = 1 \/ g >= secs[i - 1])]
StartOf(g) == LET i == CHOOSE i \in 1..Len(secs) : g < secs[i] /\ (i = 1 \/ g >= secs[i - 1]) IN IF i = 1 THEN 0 ELSE secs[i - 1]
W == cap - cap0
Log(r) == act' = r /\ hist' = IF Hist THEN Append(hist, <<r, [st |-> st', step |-> step', hi |-> hi', cap |-> cap']>>) ELSE hist
Init == /\ st = "Ready" /\ secs = <<1>> /\ step = 0 /\ lo = 0 /\ hi = 0 /\ cap = 0 /\ cap0 = 0 /\ arr = 0
        /\ first = FALSE /\ age = 0 /\ act = [n |-> "init"] /\ hist = <<>>

Configure(n) ==
  /\ st \in {"Ready", "Finished"} /\ st' = "Armed" /\ secs' = SecOf(n)
  /\ step' = 0 /\ lo' = 0 /\ hi' = SecOf(n)[1] /\ cap' = 0 /\ cap0' = 0 /\ arr' = 0 /\ first' = FALSE /\ age' = 0
  /\ Log([n |-> "configure", secs |-> SecOf(n)])
Run ==
  /\ st = "Armed" /\ st' = "Running" /\ age' = 0
  /\ UNCHANGED <<secs, step, lo, hi, cap, cap0, arr, first>> /\ Log([n |-> "run"])
Arrive(k) ==
  /\ st = "Running" /\ arr + k <= hi - lo
  /\ arr' = arr + k /\ first' = TRUE /\ age' = (IF first THEN age ELSE 0)
  /\ UNCHANGED <<st, secs, step, lo, hi, cap, cap0>> /\ Log([n |-> "arrive", k |-> k])
\* the run is done when all its frames are in the file, whatever was written before it
Write(k) ==
  /\ st = "Running" /\ W + k <= arr /\ cap' = cap + k /\ age' = 0
  /\ IF W + k < hi - lo
     THEN step' = lo + W + k /\ UNCHANGED <<st, lo, hi, cap0, arr, first>>
     ELSE /\ step' = hi
          /\ IF hi = Total THEN st' = "Finished" /\ UNCHANGED <<lo, hi, cap0, arr, first>>
             ELSE st' = "Armed" /\ lo' = hi /\ hi' = EndOf(hi) /\ cap0' = cap + k /\ arr' = 0 /\ first' = FALSE
  /\ UNCHANGED secs /\ Log([n |-> "write", k |-> k])
\* rewind to g; k more frames are written while it stops
Seek(g, k, to) ==
  /\ st' = to /\ step' = g /\ lo' = g /\ hi' = EndOf(g) /\ cap' = cap + k /\ cap0' = cap + k /\ arr' = 0 /\ first' = FALSE /\ age' = 0
  /\ UNCHANGED secs
Pause(g, k) ==
  /\ st \in {"Running", "Paused"} /\ (st = "Paused" => k = 0) /\ W + k <= arr /\ W + k < hi - lo /\ cap + k <= MaxCap
  /\ g >= StartOf(lo) /\ g <= step
  /\ Seek(g, k, "Paused") /\ Log([n |-> "pause", g |-> IF g = step THEN -1 ELSE g, k |-> k])
Move(g) ==
  /\ st \in {"Armed", "Finished"} /\ g < Total
  /\ Seek(g, 0, "Armed") /\ Log([n |-> "move", g |-> g])
Resume ==
  /\ st = "Paused" /\ st' = "Running" /\ age' = 0
  /\ UNCHANGED <<secs, step, lo, hi, cap, cap0, arr, first>> /\ Log([n |-> "resume"])
\* time passes; three ticks without a frame is too long, once the first frame is there
Tick ==
  /\ st = "Running"
  /\ age' = (IF first THEN age + 1 ELSE 0) /\ st' = (IF age' >= 3 THEN "Fault" ELSE st)
  /\ UNCHANGED <<secs, step, lo, hi, cap, cap0, arr, first>> /\ Log([n |-> "tick"])
\* the writer reports an error
Break ==
  /\ st = "Running" /\ first /\ st' = "Fault"
  /\ UNCHANGED <<secs, step, lo, hi, cap, cap0, arr, first, age>> /\ Log([n |-> "break"])
Abort ==
  /\ st \in {"Armed", "Running", "Paused"} /\ st' = "Aborted"
  /\ UNCHANGED <<secs, step, lo, hi, cap, cap0, arr, first, age>> /\ Log([n |-> "abort"])
Reset ==
  /\ st \in {"Aborted", "Fault", "Finished"} /\ st' = "Ready"
  /\ UNCHANGED <<secs, step, lo, hi, cap, cap0, arr, first, age>> /\ Log([n |-> "reset"])

Some(T, k) == IF Hist THEN LET U == {z \in T : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(U) THEN k ELSE Cardinality(U), U) ELSE T
Wt(k) == IF Hist THEN 1..k ELSE {1}
Next ==
  \/ \E n \in Some(Shapes, 1) : Configure(n)
  \/ \E z \in Wt(3) : Run
  \/ \E z \in Wt(4) : \E k \in Some(1..3, 1) : Arrive(k)
  \/ \E z \in Wt(5) : \E k \in Some(1..3, 2) : Write(k)
  \/ \E z \in Wt(2) : \E g \in Some(0..6, 3), k \in Some(0..1, 1) : Pause(g, k)
  \/ \E g \in Some(0..6, 1) : Move(g)
  \/ \E z \in Wt(3) : Resume
  \/ \E z \in Wt(2) : Tick
  \/ (Hist => RandomElement({z \in 1..3 : Len(hist) >= 0}) = 1) /\ Break
  \/ (Hist => RandomElement({z \in 1..3 : Len(hist) >= 0}) = 1) /\ Abort
  \/ Reset

\* ---- what must hold
Live == st \in {"Armed", "Running", "Paused"}
Ok == Live => (lo <= step /\ step <= hi /\ hi <= Total /\ W <= hi - lo /\ arr >= W /\ step = lo + W)
DoneExactly == [][st = "Running" /\ st' \in {"Armed", "Finished"} => cap' - cap0 = hi - lo /\ step' = hi]_vars
NotLost == st = "Running" => W < hi - lo
TimesOut == [][st = "Running" /\ st' = "Fault" => act'.n = "break" \/ (act'.n = "tick" /\ first /\ age >= 2)]_vars
Patient == [][~first /\ st = "Running" => st' # "Fault"]_vars
Forward == [][step' < step => act'.n \in {"pause", "move", "configure"}]_vars
Bound == cap <= MaxCap
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
