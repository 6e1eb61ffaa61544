------------------------------- MODULE Process -------------------------------
(* The life of a process: controllers are added, started, published and halted.                 *)
(* Controller c may bring a helper c+10, which its own start function adds to the process.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
CONSTANTS C,      \* controllers the user adds, 1..n
          Hist
VARIABLES cfg,     \* c -> [kids, out, unpub, adds, xunpub]
          ps,      \* Stopped | Starting | Publishing | Started | Stopping
          hosted,  \* controllers the process knows
          begun,   \* controllers whose start function was entered
          started, \* controllers whose start function finished
          halted,  \* controllers halted by the last stop
          pub,     \* set of the last publication
          must,    \* controllers which have been given it
          jobs,    \* outstanding spawned work
          wait,    \* what is held up: [n, g, cs]
          late,    \* added while the process was publishing at start
          ready,   \* number of configured controllers
          act, hist
view == <<cfg, ps, hosted, begun, started, halted, pub, must, jobs, wait, late, ready>>
vars == <<cfg, ps, hosted, begun, started, halted, pub, must, jobs, wait, late, ready, act, hist>>
X == {c + 10 : c \in C}
All == C \cup X
None == [n |-> "none", g |-> 0, cs |-> {}]
Blank == [kids |-> {}, out |-> "ok", unpub |-> FALSE, adds |-> FALSE, xunpub |-> FALSE]

\* a controller that failed to start never got to say that it must not be published
Unpub(c) == IF c \in X THEN cfg[c - 10].xunpub ELSE cfg[c].unpub /\ cfg[c].out # "startfail"
Publishable(h) == {c \in h : ~Unpub(c)}
Kids(c) == IF c \in X THEN {} ELSE cfg[c].kids \cup (IF cfg[c].adds THEN {c + 10} ELSE {})
Before(h) == {<<a, b>> \in Publishable(h) \X Publishable(h) : b \in Kids(a)}
Helpers(cs) == {c + 10 : c \in {d \in cs \cap C : cfg[d].adds}}

Obs == [ps |-> ps', hosted |-> hosted', begun |-> begun', started |-> started', halted |-> halted',
        pub |-> pub', before |-> {e \in Before(hosted') : e[1] \in pub' /\ e[2] \in pub'},
        must |-> must', wait |-> wait'.n, jobs |-> jobs']
Log(a) == act' = a /\ hist' = IF Hist THEN Append(hist, <<a, Obs>>) ELSE hist

Init == /\ cfg = [c \in C |-> Blank] /\ ps = "Stopped" /\ hosted = {} /\ begun = {} /\ started = {}
        /\ halted = {} /\ pub = {} /\ must = {} /\ jobs = 0 /\ wait = None /\ late = {} /\ ready = 0
        /\ act = [n |-> "init"] /\ hist = <<>>

\* children always have a higher rank: c*r mod p is a permutation of the controllers
Config(c, r) ==
  /\ ready < Cardinality(C) /\ c = ready + 1
  /\ ready' = c /\ cfg' = [cfg EXCEPT ![c] = r]
  /\ UNCHANGED <<ps, hosted, begun, started, halted, pub, must, jobs, wait, late>>
  /\ Log([n |-> "cfg", c |-> c, r |-> r])

Up == ready = Cardinality(C)
Keep1 == UNCHANGED <<cfg, ready>>

\* everything in cs (and the helpers) has been started; publish if that made a difference
Finish(h, cs) ==
  LET all == cs \cup Helpers(cs) IN
  /\ hosted' = h \cup all
  /\ begun' = begun \cup all
  /\ started' = started \cup all
  /\ IF Publishable(all) # {} THEN pub' = Publishable(h \cup all) /\ must' = h \cup all
     ELSE UNCHANGED <<pub, must>>

Add(q) ==
  LET cs == {q[i] : i \in 1..Len(q)} IN
  /\ Up /\ cs # {} /\ cs \cap hosted = {}
  /\ \/ /\ ps = "Stopped" /\ hosted' = hosted \cup cs
        /\ UNCHANGED <<begun, started, pub, must, late>>
     \/ /\ ps = "Starting"
        /\ LET all == cs \cup Helpers(cs) IN
           hosted' = hosted \cup all /\ begun' = begun \cup all /\ started' = started \cup all
        /\ UNCHANGED <<pub, must, late>>
     \/ /\ ps = "Publishing"
        \* whether the addition returns before the publication ends is left open
        /\ LET all == cs \cup Helpers(cs) IN
           hosted' = hosted \cup all /\ begun' = begun \cup all /\ started' = started \cup all /\ late' = late \cup all
        /\ UNCHANGED <<pub, must>>
     \/ ps = "Started" /\ wait.n = "none" /\ Finish(hosted, cs) /\ UNCHANGED late
  /\ UNCHANGED <<ps, halted, jobs, wait>> /\ Keep1
  /\ Log([n |-> "add", q |-> q])

\* a controller whose start function takes until it is released
AddSlow(q, g) ==
  LET cs == {q[i] : i \in 1..Len(q)} IN
  /\ Up /\ cs \cap hosted = {} /\ ps = "Started" /\ wait.n = "none" /\ g \in cs
  /\ hosted' = hosted \cup cs \cup Helpers(cs) /\ begun' = begun \cup cs \cup Helpers(cs)
  /\ started' = started \cup ((cs \cup Helpers(cs)) \ {g})
  \* helpers are published when they are added
  /\ wait' = [n |-> "addslow", g |-> g, cs |-> cs]
  /\ IF Publishable(Helpers(cs)) # {} THEN pub' = Publishable(hosted') /\ must' = hosted' ELSE UNCHANGED <<pub, must>>
  /\ UNCHANGED <<ps, halted, jobs, late>> /\ Keep1
  /\ Log([n |-> "addslow", q |-> q, g |-> g])

Start(z) ==
  /\ Up /\ ps = "Stopped" /\ z = 0
  /\ ps' = "Started" /\ Finish({}, hosted)
  /\ UNCHANGED <<halted, jobs, wait, late>> /\ Keep1
  /\ Log([n |-> "start"])

\* the start function of g takes until it is released
StartSlow(g) ==
  /\ Up /\ ps = "Stopped" /\ g \in hosted
  /\ ps' = "Starting" /\ wait' = [n |-> "start", g |-> g, cs |-> hosted]
  /\ hosted' = hosted \cup Helpers(hosted)
  /\ begun' = begun \cup hosted' /\ started' = started \cup (hosted' \ {g})
  /\ UNCHANGED <<halted, pub, must, jobs, late>> /\ Keep1
  /\ Log([n |-> "startslow", g |-> g])

\* the publish function of g takes until it is released
StartPubSlow(g) ==
  /\ Up /\ ps = "Stopped" /\ g \in hosted
  /\ Publishable(hosted \cup Helpers(hosted)) # {}
  /\ ps' = "Publishing" /\ wait' = [n |-> "publish", g |-> g, cs |-> {}]
  /\ Finish({}, hosted)
  /\ UNCHANGED <<halted, jobs, late>> /\ Keep1
  /\ Log([n |-> "startpub", g |-> g])

Release ==
  /\ wait.n \in {"start", "publish", "addslow", "stop"}
  /\ wait' = None
  /\ CASE wait.n = "start" ->
            /\ ps' = "Started" /\ started' = begun
            /\ pub' = Publishable(hosted) /\ must' = (IF Publishable(hosted) = {} THEN must ELSE hosted)
            /\ UNCHANGED <<hosted, begun, halted, jobs, late>>
       [] wait.n = "publish" ->
            /\ ps' = "Started"
            /\ pub' = Publishable(hosted) /\ must' = must \cup Publishable(late)
            /\ late' = {}
            /\ UNCHANGED <<hosted, begun, started, halted, jobs>>
       [] wait.n = "addslow" ->
            /\ started' = begun /\ pub' = Publishable(hosted)
            /\ must' = (IF Publishable(wait.cs \cup Helpers(wait.cs)) # {} THEN hosted ELSE must)
            /\ UNCHANGED <<ps, hosted, begun, halted, jobs, late>>
       [] wait.n = "stop" ->
            /\ ps' = "Stopped" /\ halted' = hosted /\ hosted' = {} /\ begun' = {} /\ started' = {}
            /\ pub' = {} /\ must' = {} /\ jobs' = 0 /\ late' = {}
  /\ Keep1 /\ Log([n |-> "release", w |-> wait.n])

Stop ==
  /\ Up /\ ps = "Started" /\ wait.n = "none" /\ jobs = 0
  /\ ps' = "Stopped" /\ halted' = hosted /\ hosted' = {} /\ begun' = {} /\ started' = {} /\ pub' = {} /\ must' = {}
  /\ UNCHANGED <<jobs, wait, late>> /\ Keep1
  /\ Log([n |-> "stop"])

\* work is outstanding: every controller is halted, but stop does not return before the work has ended
StopSlow ==
  /\ Up /\ ps = "Started" /\ wait.n = "none" /\ jobs > 0
  /\ ps' = "Stopping" /\ wait' = [n |-> "stop", g |-> 0, cs |-> {}]
  /\ halted' = hosted
  /\ UNCHANGED <<hosted, begun, started, pub, must, jobs, late>> /\ Keep1
  /\ Log([n |-> "stopslow"])

Spawn(k) ==
  /\ Up /\ ps = "Started" /\ wait.n = "none" /\ jobs < 2
  /\ jobs' = jobs + 1
  /\ UNCHANGED <<ps, hosted, begun, started, halted, pub, must, wait, late>> /\ Keep1
  /\ Log([n |-> "spawn", k |-> k])

\* refused, nothing changes
Refused(w) ==
  /\ Up
  /\ CASE w = "start" -> ps # "Stopped"
       [] w = "stop" -> ps \notin {"Started", "Publishing"}
       [] w = "dup" -> hosted # {}
       [] w = "spawn" -> ps = "Stopped"
       [] w = "unknown" -> TRUE
  /\ UNCHANGED view
  /\ Log([n |-> "refused", w |-> w, known |-> hosted])

Some(S, k) == IF Hist THEN LET T == {x \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T) ELSE S
Outs == {"ok", "startfail", "stopfail", "pubfail"}
Lower(c) == {d \in C : ((d * 3) % 7) > ((c * 3) % 7)}
KidSets(c) == IF Hist THEN RandomSetOfSubsets(1, IF Len(hist) >= 0 THEN 1 + (Cardinality(Lower(c)) \div 2) ELSE 1, Lower(c))
              ELSE SUBSET Lower(c)
Orders == {<<a>> : a \in C \ hosted} \cup {<<a, b>> : a, b \in C \ hosted} \cup {<<a, b, d>> : a, b, d \in C \ hosted}
Adds == {q \in Orders : \A i, j \in 1..Len(q) : i # j => q[i] # q[j]}
SomeC(S) == Some(S, 1)
Next ==
  \/ /\ ready < Cardinality(C)
     /\ LET c == ready + 1 IN
        \E k \in (IF Lower(c) = {} THEN {{}} ELSE KidSets(c)), o \in Some(Outs, 1), u \in Some(1..3, 1), a \in Some(1..3, 1), xu \in Some(BOOLEAN, 1) :
          Config(c, [kids |-> k, out |-> o, unpub |-> (u = 1), adds |-> (a = 1), xunpub |-> xu])
  \/ \E z \in 1..2 : \E q \in Some(Adds, 1) : Add(q)
  \/ \E q \in Some(Adds, 1) : \E g \in {q[i] : i \in 1..Len(q)} : AddSlow(q, g)
  \/ Start(0)
  \/ \E g \in Some(hosted, 1) : StartSlow(g)
  \/ \E g \in Some(hosted, 1) : StartPubSlow(g)
  \/ Release
  \/ Stop
  \/ StopSlow
  \/ \E k \in Some({"one", "nested", "many"}, 1) : Spawn(k)
  \/ \E w \in Some({"start", "stop", "dup", "spawn", "unknown"}, 1) : Refused(w)

\* ---- what must hold
StartedAreHosted == started \subseteq begun /\ begun \subseteq hosted
AllStarted == ps = "Started" /\ wait.n = "none" => started = hosted
Published == ps = "Started" /\ wait.n = "none" => pub = Publishable(hosted)
Empty == ps = "Stopped" => begun = {} /\ jobs = 0 /\ pub = {}
\* the order asked for exists: the relation has no cycle
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {Kids(c) : c \in S} IN IF T = S THEN S ELSE Reach(T)
Acyclic == \A c \in hosted : c \notin Reach(Kids(c))
Halts == [][act'.n \in {"stop", "stopslow"} => halted' = hosted]_vars
View == view
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
