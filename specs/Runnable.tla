------------------------------ MODULE Runnable ------------------------------
(* A runnable (scanning) block: configure, run, pause/seek, resume, abort,   *)
(* disable and reset calls, each made of phases in which two parts are       *)
(* active.  A phase in `gated' takes time: each part ends it (successfully   *)
(* or not) by a separate action; other phases take none.  Part 1 ends as     *)
(* soon as it is stopped, part 2 (if slow) only when it is ready to.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

CONSTANTS Inners, Outers, Bps,   \* scan shapes: inner size, outer size, breakpoint lists
          Gates,                 \* phases that may be gated
          Fails,                 \* TRUE: parts may fail
          Ctl,                   \* allowed commands among {"pause", "seek", "abort", "disable"}
          Progress,              \* TRUE: parts report progress
          Hist
Bps_mc10 == {<<>>, <<2>>, <<1, 2>>}
Bps_mc10q == {<<>>, <<1, 2>>}
Bps_mc11q == {<<1>>}
Bps_mc11 == {<<>>, <<1>>}
Bps_sim10 == {<<>>, <<1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<1, 2, 2>>, <<3, 4>>, <<5>>}
Bps_sim11 == {<<>>, <<1>>, <<2, 2>>}
Bps_sim12 == {<<>>, <<2>>, <<2, 2>>, <<1, 3, 5>>}
VARIABLES st, msg,
          ends,      \* ends of the run sections of the configured scan
          done, conf,
          prog,      \* part -> last progress reported (-1: none)
          gated, slow,
          thr,       \* calls in progress: name -> thread
          tok,       \* a run that stops from now on is not to be resumed
          ncfg, trail, log, res, act, hist
vars == <<st, msg, ends, done, conf, prog, gated, slow, thr, tok, ncfg, trail, log, res, act, hist>>

Parts == {1, 2}
Names == {"main", "pause", "abort", "disable", "reset"}
NoThr == [op |-> "", ph |-> "", run |-> {}, stopping |-> {}, err |-> "", stop |-> FALSE, tgt |-> 0, nxt |-> "", plan |-> <<>>]
Block == {"Resetting", "Ready", "Configuring", "Armed", "Running", "PostRun", "Finished", "Paused",
          "Seeking", "Aborting", "Aborted"}
Allowed(a, b) ==
  \/ a = "Resetting" /\ b = "Ready"
  \/ a = "Ready" /\ b = "Configuring"
  \/ a = "Configuring" /\ b = "Armed"
  \/ a = "Armed" /\ b \in {"Running", "Seeking", "Resetting"}
  \/ a = "Running" /\ b \in {"PostRun", "Seeking"}
  \/ a = "PostRun" /\ b \in {"Finished", "Armed", "Seeking"}
  \/ a = "Finished" /\ b \in {"Seeking", "Resetting", "Configuring"}
  \/ a = "Seeking" /\ b \in {"Armed", "Paused", "Finished"}
  \/ a = "Paused" /\ b \in {"Seeking", "Running"}
  \/ a \in {"Ready", "Configuring", "Armed", "Running", "PostRun", "Paused", "Seeking", "Finished"} /\ b = "Aborting"
  \/ a = "Aborting" /\ b = "Aborted"
  \/ a = "Aborted" /\ b = "Resetting"
  \/ a \in Block /\ b \in {"Fault", "Disabling"}
  \/ a = "Fault" /\ b \in {"Resetting", "Disabling"}
  \/ a = "Disabling" /\ b \in {"Fault", "Disabled"}
  \/ a = "Disabled" /\ b = "Resetting"
Writeable(c, s) ==
  CASE c = "configure" -> s \in {"Ready", "Finished"}
    [] c = "run" -> s = "Armed"
    [] c = "abort" -> s \in {"Ready", "Configuring", "Armed", "Running", "PostRun", "Paused", "Seeking", "Finished"}
    [] c = "pause" -> s \in {"Armed", "Paused", "Running", "Finished"}
    [] c = "completedSteps" -> s \in {"Paused", "Armed"}
    [] c = "resume" -> s = "Paused"
    [] c = "reset" -> s \in {"Fault", "Disabled", "Aborted", "Armed", "Finished"}
    [] c = "disable" -> s \notin {"Disabling", "Disabled"}
    [] c = "save" -> s = "Ready"
Commands == {"configure", "run", "abort", "pause", "completedSteps", "resume", "reset", "disable", "save"}

Sum(q) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE q[i] + S(i - 1) IN S(Len(q))
Cumul(q) == [i \in 1..Len(q) |-> Sum(SubSeq(q, 1, i))]
Rep(q, n) == [i \in 1..(Len(q) * n) |-> q[((i - 1) % Len(q)) + 1]]
\* the sections a scan is run in: whole inner scans, or the breakpoints and the rest of each inner scan
Sections(inner, outer, bp) ==
  IF bp = <<>> THEN Cumul([i \in 1..outer |-> inner])
  ELSE LET full == IF Sum(bp) < inner THEN Append(bp, inner - Sum(bp)) ELSE bp IN Cumul(Rep(full, outer))
Total(e) == IF e = <<>> THEN 0 ELSE e[Len(e)]
SectionEnd(e, c) == e[CHOOSE i \in 1..Len(e) : e[i] > c /\ \A j \in 1..Len(e) : e[j] > c => i <= j]

-----------------------------------------------------------------------------
M == [st |-> st, msg |-> msg, ends |-> ends, done |-> done, conf |-> conf, prog |-> prog, gated |-> gated,
      slow |-> slow, thr |-> thr, tok |-> tok, trail |-> <<>>, log |-> <<>>, res |-> <<>>]
Go(m, s, t) == [m EXCEPT !.st = s, !.msg = t, !.trail = Append(@, s)]
EndCall(m, n, o) == [m EXCEPT !.res = Append(@, <<m.thr[n].op, o>>), !.thr[n] = NoThr]

\* a parked run is told not to resume
Drop(m) == LET m1 == [m EXCEPT !.tok = TRUE] IN
  IF m.thr["main"].ph = "parked" THEN EndCall(m1, "main", "aborted") ELSE m1

\* the call fails with e
Fault(m, n, e) ==
  LET m1 == EndCall(m, n, e) IN
  IF m.st = "Fault" THEN Drop(m1)
  ELSE IF Allowed(m.st, "Fault") THEN Drop(Go(m1, "Fault", e))
  ELSE Drop(EndCall(m, n, "*"))

Args(m, n, ph) ==
  CASE ph = "conf" -> <<0, SectionEnd(m.ends, 0)>>
    [] ph = "armed" -> <<m.done, SectionEnd(m.ends, m.done) - m.done>>
    [] ph = "seek" -> <<m.done, SectionEnd(m.ends, m.done) - m.done>>
    [] OTHER -> <<>>

\* phases whose parts a stop reaches
Stoppable == {"preconf", "conf", "postconf", "prerun", "run", "armed", "ready", "seek", "creset"}

RECURSIVE Enter(_, _, _), PhaseDone(_, _), Aborted(_, _), Wake(_, _), After(_, _), Superseded(_, _)

\* thread n begins phase ph
Enter(m, n, ph) ==
  LET m1 == [m EXCEPT !.thr[n].ph = ph, !.thr[n].err = "", !.log = Append(@, <<ph>> \o Args(m, n, ph))] IN
  IF ph \in m.gated THEN [m1 EXCEPT !.thr[n].run = Parts]
  ELSE PhaseDone(m1, n)

\* all parts have finished the phase of thread n
PhaseDone(m, n) ==
  LET t == m.thr[n] IN
  IF t.err = "aborted" \/ (t.err = "" /\ t.stop) THEN Aborted(m, n)
  ELSE IF t.err # "" THEN Fault(m, n, t.err)
  ELSE After(m, n)

After(m, n) ==
  LET t == m.thr[n]
      Fin(s) == IF Allowed(m.st, s) THEN Go(EndCall(m, n, "ok"), s, "") ELSE Fault(m, n, "*") IN
  CASE t.ph = "creset" -> Enter(m, n, "preconf")
    [] t.ph = "preconf" -> Enter([m EXCEPT !.done = 0, !.conf = 0, !.ends = t.plan], n, "conf")
    [] t.ph = "conf" -> Enter(m, n, "postconf")
    [] t.ph = "postconf" ->
         LET m1 == [m EXCEPT !.conf = SectionEnd(m.ends, 0), !.prog = [p \in Parts |-> 0 - 1], !.tok = FALSE] IN
         IF Allowed(m.st, "Armed") THEN Go(EndCall(m1, n, "ok"), "Armed", "") ELSE Fault(m1, n, "*")
    [] t.ph = "prerun" -> Enter(m, n, "run")
    [] t.ph = "run" ->
         LET m1 == [Go(m, "PostRun", "") EXCEPT !.done = m.conf] IN
         Enter(m1, n, IF m1.done < Total(m.ends) THEN "armed" ELSE "ready")
    [] t.ph = "armed" ->
         LET m1 == [m EXCEPT !.conf = SectionEnd(m.ends, m.done)] IN Go(EndCall(m1, n, "ok"), "Armed", "")
    [] t.ph = "ready" -> Fin("Finished")
    [] t.ph = "pause" -> Enter([m EXCEPT !.done = t.tgt], n, "seek")
    [] t.ph = "seek" ->
         LET m1 == [m EXCEPT !.conf = SectionEnd(m.ends, m.done)] IN
         IF Allowed(m.st, t.nxt) THEN Go(EndCall(m1, n, "ok"), t.nxt, "") ELSE Fault(m1, n, "*")
    [] t.ph = "abort" ->
         IF Allowed(m.st, "Aborted") THEN Drop(Go(EndCall(m, n, "ok"), "Aborted", "")) ELSE Fault(m, n, "*")
    [] t.ph = "disable" -> Fin("Disabled")
    [] t.ph = "reset" ->
         IF Allowed(m.st, "Ready")
         THEN Go(EndCall([m EXCEPT !.ends = <<>>, !.done = 0, !.conf = 0], n, "ok"), "Ready", "")
         ELSE Fault([m EXCEPT !.ends = <<>>, !.done = 0, !.conf = 0], n, "*")

\* thread n notices it was stopped: whoever is waiting for that continues
Aborted(m, n) ==
  LET t == m.thr[n]
      m1 == IF n = "main" /\ t.op = "run" /\ ~m.tok
            THEN [m EXCEPT !.thr[n] = [NoThr EXCEPT !.op = "run", !.ph = "parked"]]
            ELSE EndCall(m, n, "aborted") IN
  IF n = "main" /\ m.thr["abort"].ph = "wait" THEN Wake(m1, "abort")
  ELSE IF n = "main" /\ m.thr["pause"].ph = "wait" THEN Wake(m1, "pause")
  ELSE IF n = "pause" /\ m.thr["abort"].ph = "wait" THEN Wake(m1, "abort")
  ELSE m1

\* an abort overtakes a waiting pause
Superseded(m, n) == IF m.thr[n].ph = "wait" THEN EndCall(m, n, "aborted") ELSE m
Wake(m, n) == Enter(IF n = "abort" THEN Superseded(m, "pause") ELSE m, n, n)

\* stop everything that runs under the block's own contexts
RECURSIVE StopThr(_, _)
StopThr(m, todo) ==
  IF todo = <<>> THEN m
  ELSE LET n == Head(todo)
           t == m.thr[n]
           hit == t.op # "" /\ t.ph # "parked" /\ t.ph # "wait"
           ends1 == IF t.ph \in Stoppable THEN (IF m.slow THEN {1} ELSE Parts) \cap t.run ELSE {}
           t1 == [t EXCEPT !.stop = TRUE, !.run = @ \ ends1,
                           !.stopping = IF t.ph \in Stoppable THEN t.run \ ends1 ELSE {},
                           !.err = IF @ = "" /\ ends1 # {} THEN "aborted" ELSE @]
           m1 == [m EXCEPT !.thr[n] = t1] IN
       IF ~hit THEN StopThr(m, Tail(todo))
       ELSE StopThr(IF t1.run = {} THEN PhaseDone(m1, n) ELSE m1, Tail(todo))
-----------------------------------------------------------------------------
Active(m) == {<<n, p>> \in Names \X Parts : p \in m.thr[n].run}
Calls(m) == {m.thr[n].op : n \in {z \in Names : m.thr[z].op # ""}}
Become(m, a) ==
  /\ st' = m.st /\ msg' = m.msg /\ ends' = m.ends /\ done' = m.done /\ conf' = m.conf /\ prog' = m.prog
  /\ gated' = m.gated /\ slow' = m.slow /\ tok' = m.tok /\ thr' = m.thr /\ trail' = m.trail /\ log' = m.log /\ res' = m.res
  /\ act' = a
  /\ ncfg' = ncfg + (IF a.n = "configure" THEN 1 ELSE 0)
  /\ hist' = IF Hist THEN Append(hist, <<a, [st |-> m.st, msg |-> m.msg, done |-> m.done, conf |-> m.conf,
                total |-> Total(m.ends), trail |-> m.trail, log |-> m.log, res |-> m.res, calls |-> Calls(m),
                run |-> {<<m.thr[x[1]].ph, x[2]>> : x \in Active(m)},
                wr |-> [c \in Commands |-> Writeable(c, m.st)]]>>) ELSE hist

Init == /\ st = "Ready" /\ msg = "" /\ ends = <<>> /\ done = 0 /\ conf = 0 /\ prog = [p \in Parts |-> 0 - 1]
        /\ gated = {"run"} /\ slow = FALSE /\ thr = [n \in Names |-> NoThr]
        /\ tok = FALSE /\ ncfg = 0 /\ trail = <<>> /\ log = <<>> /\ res = <<>> /\ act = [n |-> "init"] /\ hist = <<>>

Thread(op, stop) == [NoThr EXCEPT !.op = op]
\* (a command arriving while a failed part's phase is still being wound up is not modelled: the
\* code then waits 10 s for it)
NoBoom == \A n \in Names : thr[n].err # "boom"
Quiet == \A n \in Names : thr[n].op = ""

Configure(i, o, b, g, s) ==
  /\ Quiet /\ Writeable("configure", st) /\ Sum(b) <= i
  /\ LET m == [Go(M, "Configuring", "") EXCEPT !.gated = {"run"} \cup g, !.slow = s,
                 !.thr["main"] = [NoThr EXCEPT !.op = "configure", !.plan = Sections(i, o, b)]] IN
     Become(Enter(m, "main", IF st = "Finished" THEN "creset" ELSE "preconf"),
            [n |-> "configure", i |-> i, o |-> o, b |-> b, g |-> {"run"} \cup g, s |-> s])

Run == /\ Writeable("run", st) /\ thr["main"].op = "" /\ thr["pause"].op = ""
       /\ Become(Enter([Go(M, "Running", "") EXCEPT !.thr["main"] = [NoThr EXCEPT !.op = "run"]], "main", "prerun"),
                 [n |-> "run"])

Resume == /\ Writeable("resume", st) /\ thr["main"].ph = "parked"
          /\ Become(Enter([Go(M, "Running", "") EXCEPT !.thr["main"] = [NoThr EXCEPT !.op = "run"],
                              !.res = <<<<"resume", "ok">>>>], "main", "prerun"), [n |-> "resume"])

\* pause, or seek to a step (by the method or by writing completedSteps)
Pause(s, how) ==
  /\ thr["pause"].op = "" /\ NoBoom
  /\ Writeable(IF how = "put" THEN "completedSteps" ELSE "pause", st)
  /\ how = "put" => s >= 0
  /\ LET total == Total(ends)
         t0 == IF s < 0 THEN done ELSE IF s >= total THEN total - 1 ELSE s
         t1 == IF st \in {"Armed", "Finished"} THEN t0 ELSE IF t0 = conf THEN t0 - 1 ELSE t0
         nxt == IF st \in {"Armed", "Finished"} THEN "Armed" ELSE "Paused"
         m == [Go(M, "Seeking", "") EXCEPT !.thr["pause"] = [NoThr EXCEPT !.op = "pause", !.tgt = t1, !.nxt = nxt]]
         a == [n |-> "pause", s |-> s, how |-> how] IN
     IF st = "Finished" /\ s < 0 THEN Become([M EXCEPT !.res = <<<<"pause", "ok">>>>], a)
     ELSE IF st = "Running" THEN Become(StopThr([m EXCEPT !.thr["pause"].ph = "wait"], <<"main">>), a)
     ELSE Become(Enter(m, "pause", "pause"), a)

Abort ==
  /\ Writeable("abort", st) /\ thr["abort"].op = "" /\ NoBoom
  /\ LET m == [Go(M, "Aborting", "") EXCEPT !.thr["abort"] = [NoThr EXCEPT !.op = "abort"]] IN
     IF st \in {"Ready", "Armed", "Paused", "Finished"} THEN Become(Enter(m, "abort", "abort"), [n |-> "abort"])
     ELSE Become(StopThr([m EXCEPT !.thr["abort"].ph = "wait"], <<"main", "pause">>), [n |-> "abort"])

Disable ==
  /\ Writeable("disable", st) /\ thr["disable"].op = "" /\ thr["reset"].op = "" /\ NoBoom
  /\ thr["abort"].op # "" => ncfg > 0
  /\ LET m == [Go(M, "Disabling", "") EXCEPT !.thr["disable"] = [NoThr EXCEPT !.op = "disable"]]
         m1 == Drop(Superseded(Superseded(m, "pause"), "abort")) IN
     Become(Enter(StopThr(m1, <<"main", "pause", "abort">>), "disable", "disable"), [n |-> "disable"])

Reset == /\ Quiet /\ Writeable("reset", st)
         /\ Become(Enter([Go(M, "Resetting", "") EXCEPT !.thr["reset"] = [NoThr EXCEPT !.op = "reset"]], "reset", "reset"),
                   [n |-> "reset"])

\* part p ends its current activity in the phase of call n
PartEnds(n, p, ok) ==
  /\ p \in thr[n].run
  /\ ~ok => thr[n].stop = FALSE /\ Fails
  /\ LET t == thr[n]
         e == IF t.err # "" THEN t.err ELSE IF ok THEN "" ELSE "boom"
         \* a failure makes the other part stop
         gone == {p} \cup (IF ~ok /\ ~slow THEN Parts ELSE IF ~ok THEN {1} ELSE {})
         m == [M EXCEPT !.thr[n] = [t EXCEPT !.run = @ \ gone, !.stopping = @ \ gone, !.err = e]] IN
     Become(IF m.thr[n].run = {} THEN PhaseDone(m, n) ELSE m,
            [n |-> "part", ph |-> t.ph, p |-> p, ok |-> ok])

Min(a, b) == IF a < b THEN a ELSE b
Report(p, k) ==
  /\ Progress /\ thr["main"].ph = "run" /\ p \in thr["main"].run /\ ~thr["main"].stop
  /\ k >= 0 /\ k <= conf
  /\ LET pr == [prog EXCEPT ![p] = k]
         known == {q \in Parts : pr[q] >= 0}
         mn == CHOOSE x \in {pr[q] : q \in known} : \A q \in known : x <= pr[q] IN
     Become([M EXCEPT !.prog = pr, !.done = IF mn > @ THEN mn ELSE @], [n |-> "report", p |-> p, k |-> k])

\* a command not allowed in this state is refused
Refused(c) == /\ ~Writeable(c, st)
              /\ Become([M EXCEPT !.res = <<<<c, "refused">>>>], [n |-> "refused", c |-> c])

\* (the set depends on the state so that a new sample is drawn at every step)
Some(S, k) == IF Hist THEN LET T == {x \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T) ELSE S
\* in simulation some steps are made rare, so that scans get somewhere
Rare(k) == Hist => RandomElement(1..k) = 1
Resting == st \in {"Ready", "Armed", "Finished", "Paused", "Aborted", "Fault", "Disabled"}
Next ==
  \/ \E i \in Some(Inners, 2), o \in Some(Outers, 2), b \in Some(Bps, 2), g \in Some(SUBSET Gates, 2), s \in BOOLEAN :
        Configure(i, o, b, g, s)
  \/ (IF Hist THEN \E z \in 1..4 : Run ELSE Run)
  \/ (IF Hist THEN \E z \in 1..4 : Resume ELSE Resume)
  \/ "pause" \in Ctl /\ (IF Hist THEN \E z \in 1..2 : Pause(0 - 1, "post") ELSE Pause(0 - 1, "post"))
  \/ "seek" \in Ctl /\ \E s \in Some(0..(Total(ends) + 1), 2), h \in {"post", "put"} : Pause(s, h)
  \/ "abort" \in Ctl /\ Rare(IF Resting THEN 15 ELSE 3) /\ Abort
  \/ "disable" \in Ctl /\ Rare(IF Resting THEN 25 ELSE 5) /\ Disable
  \/ Rare(IF st \in {"Armed", "Finished"} THEN 20 ELSE 1) /\ Reset
  \/ \E n \in Names, p \in Parts : PartEnds(n, p, TRUE)
  \/ Rare(3) /\ \E n \in Names, p \in Some(Parts, 1) : PartEnds(n, p, FALSE)
  \/ \E p \in Parts, k \in Some(0..conf, 2) : Report(p, k)
  \/ Rare(8) /\ \E c \in Some(Commands, 1) : Refused(c)

-----------------------------------------------------------------------------
(* Properties of the specification *)
LegalTrail == [][\A j \in 1..Len(trail') : Allowed(IF j = 1 THEN st ELSE trail'[j-1], trail'[j])]_vars
Still == {"Ready", "Armed", "Finished", "Paused", "Aborted"}
\* in a resting state nothing that belongs to configuring or running is active
RestIsQuiet == st \in Still =>
   \A n \in Names : thr[n].run = {} /\ (n = "main" => thr[n].ph \in {"", "parked"})
ParkedWhenPaused == st = "Paused" => thr["main"].ph = "parked"
\* every call in progress is waiting for a part, for another call, or (run) for resume
NoStuck == \A n \in Names : thr[n].op # "" =>
   \/ thr[n].run # {}
   \/ thr[n].ph = "wait" /\ \E k \in Names \ {n} : thr[k].run # {}
   \/ thr[n].ph = "parked" /\ (st = "Paused" \/ \E k \in Names \ {n} : thr[k].run # {})
\* the position: always inside the scan; in Armed/Paused the next section is the configured one
Position == /\ done >= 0 /\ done <= Total(ends) /\ conf <= Total(ends)
            /\ st \in {"Armed", "Paused", "Running"} => done <= conf /\ conf > 0
            /\ st \in {"Armed", "Paused"} => conf = SectionEnd(ends, done)
FinishedIsComplete == st = "Finished" => done = Total(ends)
ArmedIsIncomplete == st = "Armed" => done < Total(ends)
\* parts are asked for a contiguous range starting at the last good step
RangeOK == \A j \in 1..Len(log) : Len(log[j]) = 3 =>
   /\ log[j][3] > 0
   /\ \E i \in 1..Len(ends) : ends[i] = log[j][2] + log[j][3]
   /\ \A i \in 1..Len(ends) : ~(log[j][2] < ends[i] /\ ends[i] < log[j][2] + log[j][3])
ProgressOK == [][act'.n = "report" => done' >= done]_vars
Bound == ncfg < 3
Bound2 == ncfg < 2
View == <<st, ends, done, conf, prog, gated, slow, thr, tok, trail, log, res>>
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
