------------------------------- MODULE Hooks -------------------------------
(* A controller running phases (hooks) on its parts.  A part taking part in  *)
(* a phase is of one of three kinds: "ctx" waits on its context, so a stop   *)
(* ends it; "slow" notices the stop but finishes in its own time; "deaf"     *)
(* does not look at its context.  Contexts live across phases.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

CONSTANTS Parts, Hist
VARIABLES ph,      \* [st |-> idle/run/fail, hook, err]
          part,    \* part -> [st |-> idle/run/ended, kind, stopped]
          ret,     \* part -> what it returned (of the parts that returned)
          res,     \* outcome of a phase that ended in this step
          nph, act, hist
vars == <<ph, part, ret, res, nph, act, hist>>

Hooked(h) == IF h = 1 THEN Parts ELSE {p \in Parts : p > 1}
Kinds == {"ctx", "slow", "deaf"}
Hows == {"info", "none", "raise", "badret"}
Idle == [st |-> "idle", kind |-> "", stopped |-> FALSE]
NoRes == [o |-> "", err |-> "", ret |-> <<>>]

Init == /\ ph = [st |-> "idle", hook |-> 1, err |-> ""]
        /\ part = [p \in Parts |-> Idle] /\ ret = [p \in Parts |-> ""]
        /\ res = NoRes /\ nph = 0 /\ act = [n |-> "init"] /\ hist = <<>>

Running(pt) == {p \in Parts : pt[p].st = "run"}

\* a set of parts is told to stop: the "ctx" ones end
Stopped(pt, s) == [p \in Parts |-> IF p \in s /\ pt[p].st = "run"
                     THEN (IF pt[p].kind = "ctx" THEN [pt[p] EXCEPT !.st = "ended", !.stopped = TRUE]
                           ELSE [pt[p] EXCEPT !.stopped = TRUE])
                     ELSE pt[p]]

\* the phase ends when nobody is running any more
Become(h, pt, rt, a) ==
  /\ nph' = nph + (IF a.n = "start" THEN 1 ELSE 0)
  /\ IF h.st # "idle" /\ Running(pt) = {}
     THEN /\ ph' = [h EXCEPT !.st = "idle"] /\ part' = [p \in Parts |-> Idle]
          /\ ret' = [p \in Parts |-> ""]
          /\ res' = IF h.st = "fail" THEN [o |-> "raise", err |-> h.err, ret |-> <<>>]
                    ELSE [o |-> "return", err |-> "", ret |-> [p \in Parts |-> IF p \in Hooked(h.hook) THEN rt[p] ELSE "-"]]
     ELSE ph' = h /\ part' = pt /\ ret' = rt /\ res' = NoRes
  /\ act' = a
  /\ hist' = IF Hist THEN Append(hist, <<a, [ph |-> ph'.st, part |-> part', res |-> res']>>) ELSE hist

Start(h, k) ==
  /\ ph.st = "idle"
  /\ Become([st |-> "run", hook |-> h, err |-> ""],
            [p \in Parts |-> IF p \in Hooked(h) THEN [st |-> "run", kind |-> k[p], stopped |-> FALSE] ELSE Idle],
            [p \in Parts |-> ""], [n |-> "start", h |-> h, k |-> k])

Name(p) == ToString(p)
End(p, how) ==
  /\ part[p].st = "run"
  /\ LET pt == [part EXCEPT ![p].st = "ended"] IN
     IF how \in {"info", "none"}
     THEN Become(ph, pt, [ret EXCEPT ![p] = how], [n |-> "end", p |-> p, how |-> how])
     ELSE IF ph.st = "fail" THEN Become(ph, pt, ret, [n |-> "end", p |-> p, how |-> how])
     ELSE Become([ph EXCEPT !.st = "fail", !.err = how \o Name(p)], Stopped(pt, Parts), ret,
                 [n |-> "end", p |-> p, how |-> how])

\* everything is told to stop from outside (an abort)
StopAll ==
  LET pt == Stopped(part, Parts)
      ab == \E p \in Running(part) : part[p].kind = "ctx" IN
  Become(IF ab /\ ph.st = "run" THEN [ph EXCEPT !.st = "fail", !.err = "aborted"] ELSE ph, pt, ret,
         [n |-> "stop"])

\* (the set depends on the state so that a new sample is drawn at every step)
Some(S, k) == IF Hist THEN LET T == {x \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T) ELSE S
SomeK == Some([Parts -> Kinds], 5)
Next == \/ \E h \in {1, 2}, k \in SomeK : Start(h, k)
        \/ \E p \in Parts, how \in Hows : End(p, how)
        \/ StopAll

\* a phase is over exactly when nothing runs; success needs everybody to have returned
PhaseOverMeansQuiet == ph.st = "idle" <=> Running(part) = {}
SuccessMeansAll == res.o = "return" => \A p \in DOMAIN res.ret : res.ret[p] # ""
FirstErrorWins == [][ph.st = "fail" /\ ph'.st = "fail" => ph'.err = ph.err]_vars
RaiseIsFirst == [][ph.st = "fail" /\ res'.o = "raise" => res'.err = ph.err]_vars
FailStops == ph.st = "fail" => \A p \in Running(part) : part[p].stopped /\ part[p].kind # "ctx"
View == <<ph, part, ret, res>>
Bound == nph < 4
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
