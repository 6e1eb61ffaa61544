------------------------------ MODULE Validate ------------------------------
(* Agreeing the parameters of a scan: the parts of a runnable block look at  *)
(* the parameters and ask for changes until nobody asks for any.             *)
(* What a part asks for is an arbitrary finite function of the parameters,   *)
(* given as rules "when parameter x is v, ask for y to become w" (if it is   *)
(* not, or even if it is when x is y) or "reject".                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization, FiniteSetsExt
CONSTANTS Parts, Val, NRules, Hist
Names == {"dur", "a", "b", "c"}
Limit == 10          \* rounds the code tries
Sure == 7            \* rounds it is sure to try
VARIABLES rules,     \* part -> set of rules
          given, cur, \* the parameters as given (with the defaults), and as they now are
          k, out,    \* round; outcome: "none" | "ok" | "error"
          armed,     \* is the block configured?
          act, hist
vars == <<rules, given, cur, k, out, armed, act, hist>>

Rule == [x : Names, v : Val, y : Names \cup {"reject"}, w : Val]
Params == [Names -> Val]
\* parts 1 and 2 know about all parameters, c is known to no part 1
Knows(p) == IF p = 1 THEN Names \ {"c"} ELSE Names

Hits(R, q) == {r \in UNION {R[p] : p \in Parts} : q[r.x] = r.v /\ (r.y \in {"reject", r.x} \/ q[r.y] # r.w)}
Rejects(R, q) == \E r \in Hits(R, q) : r.y = "reject"
Asked(R, q) == {<<r.y, r.w>> : r \in {z \in Hits(R, q) : z.y # "reject"}}
\* durations first, settled on the longest; then everything else, where parts that
\* disagree have it either way
Apply(A, q) ==
  LET D == {t[2] : t \in {z \in A : z[1] = "dur"}} IN
  IF D # {} THEN {[q EXCEPT !["dur"] = Max(D)]}
  ELSE LET W(n) == LET w == {t[2] : t \in {y \in A : y[1] = n}} IN IF w = {} THEN {q[n]} ELSE w IN
       {[dur |-> q.dur, a |-> va, b |-> vb, c |-> vc] : va \in W("a"), vb \in W("b"), vc \in W("c")}

\* all outcomes that are allowed: parameter sets, and "error"
RECURSIVE Outcomes(_, _, _)
Outcomes(R, F, n) ==
  IF n = 0 THEN {[ok |-> FALSE]}
  ELSE LET rej == {q \in F : Rejects(R, q)}
           fix == {q \in F \ rej : Asked(R, q) = {}}
           nxt == UNION {Apply(Asked(R, q), q) : q \in (F \ rej) \ fix}
       IN  (IF rej # {} THEN {[ok |-> FALSE]} ELSE {})
           \cup {[ok |-> TRUE, q |-> q] : q \in fix}
           \cup (IF fix # {} /\ n <= Limit - Sure THEN {[ok |-> FALSE]} ELSE {})
           \cup (IF nxt = {} THEN {} ELSE Outcomes(R, nxt, n - 1))

Log(a, s) == act' = a /\ hist' = IF Hist THEN Append(hist, <<a, s>>) ELSE hist

-----------------------------------------------------------------------------
(* the algorithm, round by round (model checked) *)
Begin == /\ out = "start" /\ out' = "none" /\ k' = 0
         /\ UNCHANGED <<rules, given, cur, armed, act, hist>>
Round ==
  /\ out = "none"
  /\ IF k = Limit \/ Rejects(rules, cur) THEN out' = "error" /\ UNCHANGED <<cur, k>>
     ELSE IF Asked(rules, cur) = {} THEN out' = "ok" /\ UNCHANGED <<cur, k>>
     ELSE \E q \in Apply(Asked(rules, cur), cur) : cur' = q /\ k' = k + 1 /\ UNCHANGED out
  /\ UNCHANGED <<rules, given, armed, act, hist>>
NextMC == Begin \/ Round

Agreed == out = "ok" => /\ Asked(rules, cur) = {} /\ ~Rejects(rules, cur)
                        \* what nobody ever asked for is as given
                        /\ \A n \in Names : cur[n] = given[n] \/
                             \E p \in Parts : \E r \in rules[p] : r.y = n /\ r.w = cur[n]
Allowed == out \in {"ok", "error"} =>
             (IF out = "ok" THEN [ok |-> TRUE, q |-> cur] ELSE [ok |-> FALSE])
               \in Outcomes(rules, {given}, Limit)
Ends == <>(out \in {"ok", "error"})
-----------------------------------------------------------------------------
(* calls made to the block *)
Some(S, n) == IF Hist THEN LET T == {x \in S : Len(hist) >= 0} IN
                 RandomSubset(IF n < Cardinality(T) THEN n ELSE Cardinality(T), T) ELSE S
AnyRules(p) == LET n == RandomElement({z \in 0..NRules : Len(hist) >= 0}) IN
               Some({r \in Rule : {r.x, r.y} \subseteq Knows(p) \cup {"reject"}}, n)
\* rules that make long chains of changes
Links == {r \in Rule : \/ <<r.x, r.y>> \in {<<"a", "b">>, <<"b", "dur">>} /\ r.w = r.v
                       \/ <<r.x, r.y>> = <<"dur", "a">> /\ r.w = r.v + 1}
ChainRules == [p \in Parts |-> Some(Links, RandomElement({z \in 3..6 : Len(hist) >= 0}))]
Chain(p, s) == {[x |-> "a", v |-> s, y |-> "b", w |-> s], [x |-> "b", v |-> s, y |-> "dur", w |-> s]}
SetRules(R) == /\ rules' = R
               /\ Log([n |-> "rules", R |-> R], [st |-> IF armed THEN "Armed" ELSE "Ready"])
               /\ UNCHANGED <<given, cur, k, out, armed>>
Call(op, q, d) ==
  \* d: parameters left to their defaults (a is 0, c is 1)
  LET g == [n \in Names |-> IF n \in d THEN (IF n = "c" THEN 1 ELSE 0) ELSE q[n]]
      O == Outcomes(rules, {g}, Limit)
      ok == op = "configure" /\ \A o \in O : o.ok IN
  /\ op = "configure" => ~armed /\ Cardinality({o.ok : o \in O}) = 1
  /\ given' = g /\ armed' = (armed \/ ok)
  /\ Log([n |-> op, q |-> q, d |-> d], [allow |-> O, st |-> IF armed' THEN "Armed" ELSE "Ready"])
  /\ UNCHANGED <<rules, cur, k, out>>
Reset == /\ armed /\ armed' = FALSE /\ Log([n |-> "reset"], [st |-> "Ready"])
         /\ UNCHANGED <<rules, given, cur, k, out>>
NextSim ==
  \/ \E R \in {[p \in Parts |-> AnyRules(p)]} : SetRules(R)
  \/ \E R \in {ChainRules} : SetRules(R)
  \/ \E z \in 1..5, op \in {"validate", "configure"}, q \in Some(Params, 1), d \in Some(SUBSET {"a", "c"}, 1) : Call(op, q, d)
  \/ \E op \in {"validate", "configure"}, q \in Some({z \in Params : z.a <= 1 /\ z.dur = 0 /\ z.b = 0}, 1), d \in Some(SUBSET {"a", "c"}, 1) : Call(op, q, d)
  \/ Reset
Zero == [n \in Names |-> 0]
InitSim == /\ rules = [p \in Parts |-> {}] /\ given = Zero /\ cur = Zero /\ k = 0 /\ out = "none"
           /\ armed = FALSE /\ act = [n |-> "init"] /\ hist = <<>>
Small == {{}} \cup {{r} : r \in [x : {"dur", "a"}, v : Val, y : {"dur", "b", "reject"}, w : Val]}
             \cup {Chain(p, 1) : p \in Parts}
InitMC == /\ rules \in [Parts -> Small] /\ given \in {q \in Params : q["c"] = 1} /\ cur = given /\ k = 0
          /\ out = "start" /\ armed = FALSE /\ act = [n |-> "init"] /\ hist = <<>>
SpecMC == InitMC /\ [][NextMC]_vars /\ WF_vars(NextMC)
View == <<rules, given, cur, k, out>>
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
