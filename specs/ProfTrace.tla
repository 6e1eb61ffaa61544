------------------------------ MODULE ProfTrace ------------------------------
(* Recorded trajectories must be behaviours of Prof. *)
EXTENDS Prof, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, ok
vars == <<core, tr, i, ok>>
Step(e) ==
  CASE e.e = "cfg" -> Configure(e.s)
    [] e.e = "batch" -> Batch(e.k)
    [] e.e = "pt" -> Point(e)
    [] e.e = "scan" -> Scan(e.k, e.rep)
    [] e.e = "fed" -> Fed /\ UNCHANGED core
    [] e.e = "done" -> Done /\ UNCHANGED core
    [] e.e = "off" -> Off
Init == InitCore /\ tr \in 1..Len(Traces) /\ i = 0 /\ ok = TRUE
Next == /\ i < Len(Traces[tr]) /\ ok
        /\ UNCHANGED tr
        /\ IF ENABLED Step(Traces[tr][i + 1])
           THEN /\ Step(Traces[tr][i + 1]) /\ i' = i + 1 /\ UNCHANGED ok
                /\ (i + 1 = Len(Traces[tr]) => PrintT("@A" \o ToString(tr)))
           ELSE /\ PrintT("@P" \o ToString(tr) \o " " \o ToString(i + 1)) /\ ok' = FALSE
                /\ UNCHANGED <<i, core>>
=============================================================================
