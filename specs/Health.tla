------------------------------- MODULE Health -------------------------------
(* The health of a block: faults reported by its parts and by its own state. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
CONSTANTS Parts, Msgs, Hist
VARIABLES fault,   \* reporter -> [sev, msg]; sev 0 = nothing wrong; reporter 0 is the block itself
          state,   \* Ready | Disabled | Fault
          act, hist
vars == <<fault, state, act, hist>>
Rep == Parts \cup {0}
OK == [sev |-> 0, msg |-> ""]
Sev == 0..4
Alarms == {OK} \cup [sev : 1..4, msg : Msgs]

Worst(f) == {f[r] : r \in {q \in Rep : f[q].sev > 0 /\ \A z \in Rep : f[z].sev <= f[q].sev}}

Become(f, s, a) ==
  /\ fault' = f /\ state' = s /\ act' = a
  /\ hist' = IF Hist THEN Append(hist, <<a, [allow |-> Worst(f), state |-> s]>>) ELSE hist

Init == fault = [r \in Rep |-> OK] /\ state = "Ready" /\ act = [n |-> "init"] /\ hist = <<>>

Report(p, a) == Become([fault EXCEPT ![p] = a], state, [n |-> "report", p |-> p, a |-> a])
Report2(p, a, q, b) == /\ p # q
   /\ Become([fault EXCEPT ![p] = a, ![q] = b], state, [n |-> "report2", p |-> p, a |-> a, q |-> q, b |-> b])
Disable == /\ state # "Disabled"
   /\ Become([fault EXCEPT ![0] = [sev |-> 3, msg |-> "Disabled"]], "Disabled", [n |-> "disable"])
Reset(ok, m) == /\ state # "Ready"
   /\ (IF ok THEN Become([fault EXCEPT ![0] = OK], "Ready", [n |-> "reset", ok |-> ok, msg |-> m])
       ELSE Become([fault EXCEPT ![0] = [sev |-> 2, msg |-> m]], "Fault", [n |-> "reset", ok |-> ok, msg |-> m]))
DisableFails(m) == /\ state # "Disabled"
   /\ Become([fault EXCEPT ![0] = [sev |-> 2, msg |-> m]], "Fault", [n |-> "disablefail", msg |-> m])

\* (the set depends on the state so that a new sample is drawn at every step)
Some(S, k) == IF Hist THEN LET T == {x \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T) ELSE S
SomeA == Some(Alarms, 3) \cup {OK}
Next == \/ \E p \in Parts, a \in SomeA : Report(p, a)
        \/ \E p, q \in Parts, a, b \in SomeA : Report2(p, a, q, b)
        \/ Disable
        \/ \E ok \in Some(BOOLEAN, 2), m \in Some(Msgs, 1) : Reset(ok, m)
        \/ \E m \in Some(Msgs, 1) : DisableFails(m)
ShowsWorst == /\ (Worst(fault) = {}) <=> (\A r \in Rep : fault[r].sev = 0)
              /\ \A w \in Worst(fault) : \A r \in Rep : fault[r].sev <= w.sev
View == <<fault, state>>
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
