------------------------------ MODULE RunTrace ------------------------------
(* What may be observed of a runnable block, event by event, at any moment:  *)
(* states shown, part activities beginning and ending, calls made and        *)
(* ended.  Recorded traces (schedules in which requests arrive while others  *)
(* are half way) must be behaviours of this specification.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, st, active, calls, ok
vars == <<tr, i, st, active, calls, ok>>

Block == {"Resetting", "Ready", "Configuring", "Armed", "Running", "PostRun", "Finished", "Paused",
          "Seeking", "Aborting", "Aborted"}
Allowed(a, b) ==
  \/ a = "Resetting" /\ b = "Ready"
  \/ a = "Ready" /\ b = "Configuring"
  \/ a = "Configuring" /\ b = "Armed"
  \/ a = "Armed" /\ b \in {"Running", "Seeking", "Resetting"}
  \/ a = "Running" /\ b \in {"PostRun", "Seeking"}
  \/ a = "PostRun" /\ b \in {"Finished", "Armed", "Seeking"}
  \/ a = "Finished" /\ b \in {"Seeking", "Resetting", "Configuring"}
  \/ a = "Seeking" /\ b \in {"Armed", "Paused", "Finished"}
  \/ a = "Paused" /\ b \in {"Seeking", "Running"}
  \/ a \in {"Ready", "Configuring", "Armed", "Running", "PostRun", "Paused", "Seeking", "Finished"} /\ b = "Aborting"
  \/ a = "Aborting" /\ b = "Aborted"
  \/ a = "Aborted" /\ b = "Resetting"
  \/ a \in Block /\ b \in {"Fault", "Disabling"}
  \/ a = "Fault" /\ b \in {"Resetting", "Disabling"}
  \/ a = "Disabling" /\ b \in {"Fault", "Disabled"}
  \/ a = "Disabled" /\ b = "Resetting"

\* activities that belong to configuring and running
Work == {"creset", "preconf", "conf", "postconf", "prerun", "run", "armed", "ready", "seek"}
Still == {"Ready", "Armed", "Finished", "Paused", "Aborted"}
Over == Still \cup {"Disabled", "Fault"}
Working == {x \in active : x[1] \in Work}

Step(e) ==
  CASE e.e = "state" ->
         /\ Allowed(st, e.s)
         /\ e.s \in Still => Working = {}          \* all activity has ended by then
         /\ st' = e.s /\ UNCHANGED <<active, calls>>
    [] e.e = "begin" ->
         /\ e.ph \in Work => st \notin Over        \* nothing begins after the end
         /\ active' = active \cup {<<e.ph, e.p>>} /\ UNCHANGED <<st, calls>>
    [] e.e = "end" ->
         /\ <<e.ph, e.p>> \in active
         /\ active' = active \ {<<e.ph, e.p>>} /\ UNCHANGED <<st, calls>>
    [] e.e = "call" -> calls' = Append(calls, e.op) /\ UNCHANGED <<st, active>>
    [] e.e = "ret" ->
         /\ \E k \in 1..Len(calls) : calls[k] = e.op
         \* a call that succeeded leaves the block where it promises (or further on)
         /\ (e.op = "abort" /\ e.o = "ok") => Working = {} \/ st \notin {"Aborted"}
         /\ calls' = LET k == CHOOSE z \in 1..Len(calls) : calls[z] = e.op IN
                     SubSeq(calls, 1, k - 1) \o SubSeq(calls, k + 1, Len(calls))
         /\ UNCHANGED <<st, active>>
    \* nothing is held up any more: every call has ended, but for a run that is paused
    [] e.e = "idle" ->
         /\ active = {}
         /\ \/ calls = <<>>
            \/ calls = <<"run">> /\ st = "Paused"
         /\ UNCHANGED <<st, active, calls>>

Init == /\ tr \in 1..Len(Traces) /\ i = 0 /\ st = "Ready" /\ active = {} /\ calls = <<>> /\ ok = TRUE
Next == /\ i < Len(Traces[tr]) /\ ok
        /\ UNCHANGED tr
        /\ IF ENABLED Step(Traces[tr][i + 1])
           THEN /\ Step(Traces[tr][i + 1]) /\ i' = i + 1 /\ UNCHANGED ok
                /\ (i + 1 = Len(Traces[tr]) => PrintT("@A" \o ToString(tr)))
           ELSE /\ PrintT("@P" \o ToString(tr) \o " " \o ToString(i + 1)) /\ ok' = FALSE
                /\ UNCHANGED <<i, st, active, calls>>
=============================================================================
