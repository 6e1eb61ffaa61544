------------------------------ MODULE ProfPlay ------------------------------
(* Prof at small sizes, with every trajectory it allows: model checked for what is visited when;      *)
(* and scans, ranges, batch sizes and stops for the real code.                                        *)
EXTENDS Prof, Json, IOUtils, Randomization
CONSTANTS Hist, MaxPts
VARIABLES seen, act, hist
vars == <<core, seen, act, hist>>
InitPlay == InitCore /\ seen = <<>> /\ act = [n |-> "init"] /\ hist = <<>>
Scans == {[rows |-> rs, dur |-> 12, every |-> e, gate |-> g, gaps |-> [z \in 1..Len(rs) |-> 3], vmax |-> <<1000000>>, from |-> 1, mb |-> 2] :
            rs \in {<< <<<<0>>, <<10>>, <<20>>>> >>, << <<<<0>>, <<10>>, <<20>>, <<30>>, <<40>>>>, <<<<40>>, <<30>>, <<20>>>> >>,
                    << <<<<0>>, <<10>>, <<20>>, <<50>>, <<80>>>> >>},
            e \in BOOLEAN, g \in BOOLEAN}
Pts == {[dt |-> d, o |-> o, x |-> <<x>>, v |-> v] : d \in {3, 6, 12, 18, 24}, o \in {0, 1, 2, 4, 8}, x \in {0, 10, 20, 30, 40, 50, 65, 80}, v \in {1, 3}}
\* what is passed on the way to this point, in halves of points of the whole range, and when
MCNext ==
  \/ mode = "off" /\ \E s \in Scans : (s.every => ~s.gate) /\ Configure(s) /\ seen' = <<>>
  \/ \E n \in 1..2 : Batch(n) /\ UNCHANGED seen
  \/ \E p \in Pts : Point(p) /\ seen' = (IF mode = "row" THEN seen \o [z \in 1..(j' - j) |-> <<r, j + z>>] ELSE IF mode' = "row" THEN Append(seen, <<r', 0>>) ELSE seen)
  \/ todo = 0 /\ mode = "end" /\ Scan(Len(prog), prog[Len(prog)]) /\ scanned < Len(prog) /\ UNCHANGED seen
NextMC == MCNext /\ Len(prog') <= MaxPts /\ UNCHANGED <<act, hist>>
RECURSIVE All(_)
All(n) == IF n = 0 THEN <<>> ELSE All(n - 1) \o [z \in 1..Len(Row(n)) |-> <<n, z - 1>>]
IsPre(a, b) == Len(a) <= Len(b) /\ \A z \in 1..Len(a) : a[z] = b[z]
InOrder == mode # "off" => IsPre(seen, All(Len(sc.rows)))
Everything == mode \in {"tail", "end"} => seen = All(Len(sc.rows))
Steps == \A z \in 2..Len(prog) : prog[z] >= prog[z - 1]
AtEnd == mode = "end" => prog[Len(prog)] = sc.from + Before(Len(sc.rows))
Timely == mode = "row" => Abs(2 * t - j * sc.dur) < sc.dur + 2 * Slack
-----------------------------------------------------------------------------
Some(S, k) == LET T == {x \in S : Len(hist) >= 0} IN
              RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T)
Emit(a) == act' = a /\ hist' = Append(hist, <<a, 0>>) /\ UNCHANGED <<core, seen>>
CfgA == [trig : {"every", "gate", "none"}, kind : {"line", "array", "step", "grid3", "jump"}, nx : {1, 2, 3, 5, 9}, ny : {1, 2, 3, 4}]
CfgB == [alt : BOOLEAN, dur : {10, 25, 100, 333, 1000, 9000, 20000}, brk : {0, 1, 2}, off : {0, 1}]
CfgC == [axes : {"xy", "yx", "x", "none"}, gap : {0, 3, 50, 700, 6000}, delay : {0, 20, 5000}, back : BOOLEAN]
CfgD == [mb : {2, 3, 5, 10, 11, 12, 13, 23, 24, 25, 2000}, bp : {1, 2, 3, 5, 20000}, acc : {1, 4, 50}]
NextSim ==
  \/ act.n \in {"init", "abort"} /\ \E z \in 1..6 : \E a \in Some(CfgA, 1), b \in Some(CfgB, 1), c \in Some(CfgC, 1), d \in Some(CfgD, 1) : Emit([n |-> "cfg", a |-> a, b |-> b, c |-> c, d |-> d])
  \/ act.n \notin {"init", "abort"} /\ \E z \in 1..2 : Emit([n |-> "run"])
  \/ act.n \notin {"init", "abort"} /\ \E z \in 1..14 : Emit([n |-> "scan", k |-> z])
  \/ act.n \notin {"init", "abort"} /\ \E z \in 1..4, y \in 1..3 : Emit([n |-> "most", k |-> y - 1])
  \/ act.n \notin {"init", "abort"} /\ RandomElement({z \in 1..2 : Len(hist) >= 0}) = 1 /\ \E g \in Some(0..5, 1) : Emit([n |-> "pause", k |-> g])
  \/ act.n \notin {"init", "abort"} /\ \E z \in 1..2 : Emit([n |-> "resume"])
  \/ act.n \notin {"init", "abort"} /\ RandomElement({z \in 1..3 : Len(hist) >= 0}) = 1 /\ \E g \in Some({0, 1, 2, 3, 5, 8, 11}, 1) : Emit([n |-> "move", k |-> g])
  \/ act.n \notin {"init"} /\ act.n # "abort" /\ RandomElement({z \in 1..4 : Len(hist) >= 0}) = 1 /\ Emit([n |-> "abort"])
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
