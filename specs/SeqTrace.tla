------------------------------ MODULE SeqTrace ------------------------------
(* Recorded fills of the sequencer tables must be a behaviour of SeqTables.  *)
EXTENDS SeqTables, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, ok
vars == <<core, tr, i, ok>>
Step(e) ==
  CASE e.e = "cfg" -> Configure(e.req)
    [] e.e = "put" -> Write(e.t, e.segs)
    \* with more than one table each must be played once, at full speed
    [] e.e = "run" -> Run /\ ((fresh["A"] /\ fresh["B"]) => \A z \in 1..2 : e.rep[z] = 1 /\ e.pre[z] = 0)
    [] e.e = "play" -> IF phase = "run" THEN Play(e.t) ELSE UNCHANGED core
    [] e.e = "stop" -> IF phase = "run" THEN Stop(e.t) ELSE UNCHANGED core
    [] e.e = "clean" -> Clean
    \* the run is over for the software when everything has been written
    [] e.e = "ret" -> (phase = "run" => rem = <<>>) /\ UNCHANGED core
    [] e.e = "idle" -> Settled /\ (phase = "set" => Filled) /\ UNCHANGED core
Init == InitCore /\ tr \in 1..Len(Traces) /\ i = 0 /\ ok = TRUE
Next == /\ i < Len(Traces[tr]) /\ ok
        /\ UNCHANGED tr
        /\ IF ENABLED Step(Traces[tr][i + 1])
           THEN /\ Step(Traces[tr][i + 1]) /\ i' = i + 1 /\ UNCHANGED ok
                /\ (i + 1 = Len(Traces[tr]) => PrintT("@A" \o ToString(tr)))
           ELSE /\ PrintT("@P" \o ToString(tr) \o " " \o ToString(i + 1)) /\ ok' = FALSE
                /\ UNCHANGED <<i, core>>
=============================================================================
