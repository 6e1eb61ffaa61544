----------------------------- MODULE Detectors -----------------------------
(* A scan that uses detectors, each a scan of its own that takes one or more frames for every step of the
   outer one: configuring, running, pausing, rewinding, failing and aborting them together. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
CONSTANTS Shapes,   \* how the steps are divided in sections
          Given,    \* rows of the detector table: 0: not taking part, else 10 * (frames + 1) + exposure; no frames: to be found out
          MaxSteps, Hist
Dets == 1..3
Mult == {1, 2}      \* those which can take several frames for each step
VARIABLES st, secs, fps, step, lo, hi,
          c,        \* how many frames each detector has reported in all
          cst,      \* the state of each detector; "?": nothing is promised
          ask,      \* what each detector was asked to do in this step
          act, hist
vars == <<st, secs, fps, step, lo, hi, c, cst, ask, act, hist>>
View == <<st, secs, fps, step, lo, hi, c, cst>>
SecOf(n) == CASE n = 1 -> <<3>> [] n = 2 -> <<2, 3>> [] n = 3 -> <<1, 3, 4>> [] n = 4 -> <<2, 4>> [] n = 5 -> <<2, 4, 6>>
              [] n = 6 -> <<1, 3, 4, 6>> [] OTHER -> <<1>>
Total == secs[Len(secs)]
Sec(g) == CHOOSE i \in 1..Len(secs) : g < secs[i] /\ (i = 1 \/ g >= secs[i - 1])
EndOf(g) == secs[Sec(g)]
StartOf(g) == IF Sec(g) = 1 THEN 0 ELSE secs[Sec(g) - 1]
On(d) == fps[d] > 0
Max(a, b) == IF a > b THEN a ELSE b
Slowest(cc) == LET S == {cc[d] \div fps[d] : d \in {x \in Dets : On(x)}} IN CHOOSE s \in S : \A t \in S : s <= t
All(f, q) == [d \in Dets |-> IF f[d] > 0 THEN <<q[d]>> ELSE <<>>]
Quiet == [d \in Dets |-> <<>>]
Log(r) == act' = r /\ hist' = IF Hist THEN Append(hist, <<r, [st |-> st', step |-> step', hi |-> hi', cst |-> cst', ask |-> ask',
                                                              c |-> c']>>) ELSE hist
Init == /\ st = "Ready" /\ secs = <<1>> /\ fps = [d \in Dets |-> 0] /\ step = 0 /\ lo = 0 /\ hi = 0 /\ c = [d \in Dets |-> 0]
        /\ cst = [d \in Dets |-> "Ready"] /\ ask = Quiet /\ act = [n |-> "init"] /\ hist = <<>>

\* times in eighths of a second: each step lasts 6, reading out a frame of those which can be told an exposure takes 1
Step == 6
Readout == 1
Solve(d, g) ==
  LET f == g \div 10 - 1
      e == g % 10 IN
  IF g = 0 THEN [ok |-> TRUE, f |-> 0, e |-> 0]
  ELSE IF d \notin Mult THEN [ok |-> e = 0 /\ f <= 1, f |-> 1, e |-> 0]
  ELSE IF f = 0 /\ e = 0 THEN [ok |-> TRUE, f |-> 1, e |-> Step - Readout]
  ELSE IF f = 0 THEN [ok |-> e + Readout <= Step, f |-> Step \div (e + Readout), e |-> e]
  ELSE IF e = 0 THEN [ok |-> TRUE, f |-> f, e |-> (Step \div f) - Readout]
  ELSE [ok |-> e <= (Step \div f) - Readout, f |-> f, e |-> e]
Configure(n, g, full) ==
  /\ st \in {"Ready", "Finished"} /\ \E d \in Dets : g[d] > 0
  /\ LET sol == [d \in Dets |-> Solve(d, g[d])]
         f == [d \in Dets |-> sol[d].f]
         ok == \A d \in Dets : sol[d].ok
         r == [n |-> "configure", shape |-> n, given |-> g, fps |-> f, exp |-> [d \in Dets |-> sol[d].e], full |-> full, ok |-> ok] IN
     IF ~ok THEN /\ ask' = Quiet /\ UNCHANGED <<st, secs, fps, step, lo, hi, c, cst>> /\ Log(r)
     ELSE /\ st' = "Armed" /\ secs' = SecOf(n) /\ fps' = f /\ step' = 0 /\ lo' = 0 /\ hi' = SecOf(n)[1]
          /\ c' = [d \in Dets |-> 0] /\ cst' = [d \in Dets |-> IF f[d] > 0 THEN "Armed" ELSE "Ready"]
          /\ ask' = All(f, [d \in Dets |-> <<"conf", 0, f[d] * SecOf(n)[1], f[d] * SecOf(n)[Len(SecOf(n))]>>]) /\ Log(r)
Run ==
  /\ st = "Armed" /\ st' = "Running" /\ cst' = [d \in Dets |-> IF On(d) THEN "Running" ELSE cst[d]]
  /\ ask' = All(fps, [d \in Dets |-> <<"run">>]) /\ UNCHANGED <<secs, fps, step, lo, hi, c>> /\ Log([n |-> "run"])
Progress(d, k) ==
  /\ st = "Running" /\ On(d) /\ cst[d] = "Running" /\ c[d] + k <= fps[d] * hi
  /\ c' = [c EXCEPT ![d] = @ + k] /\ step' = Max(step, Slowest(c'))
  /\ ask' = Quiet /\ UNCHANGED <<st, secs, fps, lo, hi, cst>> /\ Log([n |-> "progress", d |-> d, to |-> c'[d]])
Finish(d) ==
  /\ st = "Running" /\ On(d) /\ cst[d] = "Running" /\ c[d] = fps[d] * hi
  /\ cst' = [cst EXCEPT ![d] = IF hi = Total THEN "Finished" ELSE "Armed"]
  /\ ask' = [Quiet EXCEPT ![d] = IF hi = Total THEN <<<<"ready">>>> ELSE <<<<"armed", fps[d] * hi, fps[d] * (EndOf(hi) - hi)>>>>]
  /\ IF \E e \in Dets : cst'[e] = "Running" THEN UNCHANGED <<st, step, lo, hi>>
     ELSE /\ step' = hi
          /\ IF hi = Total THEN st' = "Finished" /\ UNCHANGED <<lo, hi>> ELSE st' = "Armed" /\ lo' = hi /\ hi' = EndOf(hi)
  /\ UNCHANGED <<secs, fps, c>> /\ Log([n |-> "finish", d |-> d])
\* every detector goes to the frame that belongs to step g
Seek(g, to) ==
  /\ st' = to /\ step' = g /\ lo' = g /\ hi' = EndOf(g) /\ c' = [d \in Dets |-> fps[d] * g]
  /\ cst' = [d \in Dets |-> IF ~On(d) THEN cst[d] ELSE IF cst[d] \in {"Running", "Paused"} THEN "Paused" ELSE "Armed"]
  /\ ask' = All(fps, [d \in Dets |-> <<"seek", fps[d] * g, fps[d] * (EndOf(g) - g)>>]) /\ UNCHANGED <<secs, fps>>
Pause(g) ==
  /\ st \in {"Running", "Paused"} /\ g >= StartOf(lo) /\ g <= step
  /\ Seek(IF g = hi THEN hi - 1 ELSE g, "Paused") /\ Log([n |-> "pause", g |-> IF g = step THEN -1 ELSE g])
Move(g) ==
  /\ st \in {"Armed", "Finished"} /\ g < Total /\ Seek(g, "Armed") /\ Log([n |-> "pause", g |-> g])
Resume ==
  /\ st = "Paused" /\ st' = "Running" /\ cst' = [d \in Dets |-> IF On(d) THEN "Running" ELSE cst[d]]
  /\ ask' = All(fps, [d \in Dets |-> <<"run">>]) /\ UNCHANGED <<secs, fps, step, lo, hi, c>> /\ Log([n |-> "resume"])
Unknown == [d \in Dets |-> "?"]
Fail(d) ==
  /\ st = "Running" /\ On(d) /\ cst[d] = "Running" /\ st' = "Fault" /\ cst' = [Unknown EXCEPT ![d] = "Fault"]
  /\ ask' = Quiet /\ UNCHANGED <<secs, fps, step, lo, hi, c>> /\ Log([n |-> "fail", d |-> d])
\* somebody else aborts the detector
Snatch(d) ==
  /\ st = "Running" /\ On(d) /\ cst[d] = "Running" /\ st' = "Fault" /\ cst' = [Unknown EXCEPT ![d] = "Aborted"]
  /\ ask' = Quiet /\ UNCHANGED <<secs, fps, step, lo, hi, c>> /\ Log([n |-> "snatch", d |-> d])
Abort ==
  /\ st \in {"Armed", "Running", "Paused"} /\ st' = "Aborted" /\ cst' = [d \in Dets |-> IF On(d) THEN "Aborted" ELSE "?"]
  /\ ask' = Quiet /\ UNCHANGED <<secs, fps, step, lo, hi, c>> /\ Log([n |-> "abort"])
Reset ==
  /\ st \in {"Aborted", "Fault", "Finished"} /\ st' = "Ready" /\ cst' = [d \in Dets |-> "Ready"]
  /\ ask' = Quiet /\ UNCHANGED <<secs, fps, step, lo, hi, c>> /\ Log([n |-> "reset"])

Some(T, k) == IF Hist THEN LET U == {z \in T : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(U) THEN k ELSE Cardinality(U), U) ELSE T
Wt(k) == IF Hist THEN 1..k ELSE {1}
Rare(k) == Hist => RandomElement({z \in 1..k : Len(hist) >= 0}) = 1
Next ==
  \/ \E z \in Wt(2) : \E n \in Some(Shapes, 1), a \in Some(Given, 1), b \in Some(Given, 1), e \in Some(IF Hist THEN (IF Rare(4) THEN Given ELSE {0, 10, 20}) ELSE Given \cap 0..20, 1),
       full \in (IF Hist THEN Some(BOOLEAN, 1) ELSE {TRUE}) : Configure(n, <<a, b, e>>, full)
  \/ \E z \in Wt(5) : Run
  \/ \E z \in Wt(6) : \E d \in Some(Dets, 1), k \in Some(1..6, 2) : Progress(d, k)
  \/ \E z \in Wt(2) : \E d \in Some(Dets, 1) : IF Hist /\ On(d) /\ fps[d] * hi > c[d] THEN Progress(d, fps[d] * hi - c[d]) ELSE Finish(d)
  \/ \E z \in Wt(3) : \E d \in Dets : Finish(d)
  \/ \E z \in Wt(2) : \E g \in Some(0..MaxSteps, 2) : Pause(g)
  \/ \E g \in Some(0..MaxSteps, 1) : Rare(2) /\ Move(g)
  \/ \E z \in Wt(5) : Resume
  \/ Rare(3) /\ \E d \in Some(Dets, 1) : Fail(d)
  \/ Rare(6) /\ \E d \in Some(Dets, 1) : Snatch(d)
  \/ Rare(3) /\ Abort
  \/ \E z \in Wt(3) : Reset

\* ---- what must hold
Live == st \in {"Armed", "Running", "Paused"}
InStep == Live => \A d \in Dets : On(d) => fps[d] * lo <= c[d] /\ c[d] <= fps[d] * hi
NeverAhead == st \in {"Armed", "Running", "Paused", "Finished"} => \A d \in Dets : On(d) => step * fps[d] <= c[d]
Together == st \in {"Armed", "Paused", "Finished"} => \A d \in Dets : On(d) => c[d] = fps[d] * step
AllDone == [][st = "Running" /\ st' \in {"Armed", "Finished"} => \A d \in Dets : On(d) => c[d] = fps[d] * hi]_vars
NotAsked == [][\A d \in Dets : fps'[d] = 0 => ask'[d] = <<>>]_vars
Idle == [][\A d \in Dets : fps'[d] = 0 => cst'[d] \in {"Ready", "?"}]_vars
States == Live => \A d \in Dets : On(d) => cst[d] \in (CASE st = "Armed" -> {"Armed"} [] st = "Running" -> {"Running", "Armed", "Finished"}
                                                          [] OTHER -> {"Paused", "Armed"})
\* the exposures and the readouts of its frames fit in a step
Fits == [][act'.n = "configure" /\ act'.ok => \A d \in Mult : fps'[d] > 0 => fps'[d] * (act'.exp[d] + Readout) <= Step]_vars
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
