------------------------------- MODULE Design -------------------------------
(* A manager block with three children: settings, layout, exports, designs saved and loaded.    *)
(* Settings of a child: a (restored first), b (restored second; writing a clears it),           *)
(* n (not restorable), s (restorable but declared no_save), d (child 3 only, comes and goes).   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
CONSTANTS Kids, V, Names, Hist
VARIABLES a, b, n, s,  \* child -> value
          d,           \* value of the dynamic setting of child 3, -1 when it is not there
          vis, x,      \* child -> layout
          exps,        \* exports: sequence of <<source, name>>
          own,         \* <<setting of a plain part, setting of child 2's part>>
          files,       \* design name -> what was saved, or NoFile
          base,        \* what was last saved or loaded
          design,      \* its name
          st,          \* Boot | Ready | Fault
          unk,         \* settings not known: a load failed half way
          taint,       \* modified not known: a save failed half way
          touched,     \* children changed since a design without a value for them was loaded
          act, hist
core == <<a, b, n, s, d, vis, x, exps, own>>
vars == <<a, b, n, s, d, vis, x, exps, own, files, base, design, st, unk, taint, touched, act, hist>>
view == <<a, b, n, s, d, vis, x, exps, own, files, base, design, st, unk, taint, touched>>
T == "template_t"
All == Names \cup {T}
NoKids == [c \in Kids |-> [a |-> -1, b |-> -1]]
Pack == [k |-> [c \in Kids |-> [a |-> a[c], b |-> b[c]]], d |-> d, vis |-> vis, x |-> x, exps |-> exps, own |-> own]
Empty == [k |-> NoKids, d |-> -1, vis |-> vis, x |-> x, exps |-> <<>>, own |-> own]
NoFile == [k |-> NoKids, d |-> -2, vis |-> [c \in Kids |-> FALSE], x |-> [c \in Kids |-> 0], exps |-> <<>>, own |-> <<0, 0>>]
Saved == {f \in DOMAIN files : files[f].d # -2}

Differs(c, p) == LET q == p.base.k[c] IN q.a # -1 /\ (p.a[c] # q.a \/ p.b[c] # q.b)
DDiffers(p) == p.d >= 0 /\ p.base.d >= 0 /\ p.d # p.base.d
Mod(p) ==
  LET sure == \/ p.vis # p.base.vis \/ p.exps # p.base.exps
              \/ \E c \in Kids : p.vis[c] /\ Differs(c, p)
              \/ p.vis[3] /\ DDiffers(p)
      maybe == \/ p.taint
               \/ \E c \in p.touched : p.vis[c]
               \/ p.vis[3] /\ ((p.d >= 0) # (p.base.d >= 0))
  IN IF p.taint THEN "any" ELSE IF sure THEN "yes" ELSE IF maybe THEN "any" ELSE "no"
P1 == [a |-> a', b |-> b', d |-> d', vis |-> vis', exps |-> exps', base |-> base', touched |-> touched', taint |-> taint']
Obs(w, m) == [a |-> a', b |-> b', nn |-> n', s |-> s', d |-> d', vis |-> vis', x |-> x', exps |-> exps', own |-> own',
              design |-> design', st |-> st', cmp |-> ~unk',
              choices |-> {f \in DOMAIN files' : files'[f].d # -2} \cup {design', ""},
              mod |-> IF m = "" THEN Mod(P1) ELSE m, w |-> w]
LogM(r, w, m) == act' = r /\ hist' = IF Hist THEN Append(hist, <<r, Obs(w, m)>>) ELSE hist
Log(r, w) == LogM(r, w, "")

Zero == [c \in Kids |-> 0]
Init == /\ a = Zero /\ b = Zero /\ n = Zero /\ s = Zero /\ d = 0
        /\ vis = [c \in Kids |-> TRUE] /\ x = Zero /\ exps = <<>> /\ own = <<0, 0>>
        /\ files = [f \in All |-> NoFile]
        /\ base = Pack /\ design = "" /\ st = "Boot" /\ unk = FALSE /\ taint = FALSE /\ touched = {}
        /\ act = [n |-> "init"] /\ hist = <<>>

\* what a load of p does to the settings, and the writes it takes
LA(p) == [c \in Kids |-> IF p.k[c].a # -1 THEN p.k[c].a ELSE a[c]]
LB(p) == [c \in Kids |-> IF p.k[c].b # -1 THEN p.k[c].b ELSE b[c]]
LD(p) == IF d >= 0 /\ p.d >= 0 THEN p.d ELSE d
Writes(p) == {<<c, "a">> : c \in {e \in Kids : LA(p)[e] # a[e]}}
        \cup {<<c, "b">> : c \in {e \in Kids : (IF LA(p)[e] # a[e] THEN 0 ELSE b[e]) # LB(p)[e]}}
        \cup (IF LD(p) # d THEN {<<3, "d">>} ELSE {})
DoLoad(p, name) ==
  /\ a' = LA(p) /\ b' = LB(p) /\ d' = LD(p)
  /\ vis' = p.vis /\ x' = p.x /\ exps' = p.exps /\ own' = p.own
  /\ base' = (IF d = -1 THEN [p EXCEPT !.d = -1] ELSE p) /\ design' = name /\ touched' = {} /\ unk' = FALSE /\ taint' = FALSE
  /\ UNCHANGED <<n, s>>

\* the template (and perhaps a design) lie in their directories when the manager starts
Boot(t, pre, init) ==
  /\ st = "Boot" /\ st' = "Ready"
  /\ files' = [files EXCEPT ![T] = t, !["d1"] = pre]
  /\ IF init = "" THEN UNCHANGED <<a, b, n, s, d, vis, x, exps, own, base, design, unk, taint, touched>>
     ELSE LET p == IF init = T THEN t ELSE pre IN p.d # -2 /\ DoLoad(p, init)
  /\ Log([n |-> "boot", t |-> t, pre |-> pre, init |-> init], {})

\* the sources that are exported exist
Exists(e) == d >= 0 \/ \A i \in 1..Len(e) : e[i][1] # <<3, "d">>
Ready == st = "Ready" /\ ~unk
Same == UNCHANGED <<files, base, design, st, unk, taint>>
Touch(c) == touched' = IF base.k[c].a = -1 THEN touched \cup {c} ELSE touched

Put(c, f, v) ==
  /\ Ready
  /\ CASE f = "a" -> a' = [a EXCEPT ![c] = v] /\ b' = [b EXCEPT ![c] = 0] /\ UNCHANGED <<n, s, d>> /\ Touch(c)
       [] f = "b" -> b' = [b EXCEPT ![c] = v] /\ UNCHANGED <<a, n, s, d>> /\ Touch(c)
       [] f = "n" -> n' = [n EXCEPT ![c] = v] /\ UNCHANGED <<a, b, s, d, touched>>
       [] f = "s" -> s' = [s EXCEPT ![c] = v] /\ UNCHANGED <<a, b, n, d, touched>>
       [] f = "d" -> c = 3 /\ d >= 0 /\ d' = v /\ UNCHANGED <<a, b, n, s, touched>>
  /\ UNCHANGED <<vis, x, exps, own>> /\ Same
  /\ Log([n |-> "put", c |-> c, f |-> f, v |-> v], {<<c, f>>})
\* the device behind the child changes two settings at the same time
Drift(c, v, w) ==
  /\ Ready /\ a' = [a EXCEPT ![c] = v] /\ b' = [b EXCEPT ![c] = w] /\ Touch(c)
  /\ UNCHANGED <<n, s, d, vis, x, exps, own>> /\ Same
  /\ Log([n |-> "drift", c |-> c, v |-> v, w |-> w], {})
\* the setting d comes and goes
Dyn(v) ==
  /\ Ready /\ (d = -1 <=> v >= 0)
  /\ d' = v /\ UNCHANGED <<a, b, n, s, vis, x, exps, own>> /\ Same
  /\ touched' = IF base.d = -1 THEN touched \cup {3} ELSE touched
  /\ Log([n |-> "dyn", v |-> v], {})
Layout(c, vv, xx) ==
  /\ Ready /\ vis' = [vis EXCEPT ![c] = vv] /\ x' = [x EXCEPT ![c] = xx]
  /\ UNCHANGED <<a, b, n, s, d, exps, own, touched>> /\ Same
  /\ Log([n |-> "layout", c |-> c, vis |-> vv, x |-> xx], {})
Exports(e) ==
  /\ Ready /\ Exists(e) /\ exps' = e
  /\ UNCHANGED <<a, b, n, s, d, vis, x, own, touched>> /\ Same
  /\ Log([n |-> "exports", e |-> e], {})
Own(i, v) ==
  /\ Ready /\ (i = 2 => vis[2]) /\ own' = [own EXCEPT ![i] = v]
  /\ UNCHANGED <<a, b, n, s, d, vis, x, exps, touched>> /\ Same
  /\ Log([n |-> "own", i |-> i, v |-> v], {})
Save(name) ==
  LET f == IF name = "" THEN design ELSE name IN
  /\ Ready /\ f \in Names
  /\ files' = [files EXCEPT ![f] = Pack] /\ base' = Pack /\ design' = f /\ taint' = FALSE /\ touched' = {}
  /\ UNCHANGED <<a, b, n, s, d, vis, x, exps, own, st, unk>>
  /\ LogM([n |-> "save", name |-> name], {}, "no")
Load(name) ==
  LET p == IF name = "" THEN Empty ELSE files[name] IN
  /\ st = "Ready" /\ (name = "" => ~unk) /\ (name # "" => name \in Saved)
  /\ (unk => p.k[1].a # -1 /\ (d >= 0 => p.d >= 0)) /\ Exists(p.exps)
  /\ DoLoad(p, name) /\ UNCHANGED <<files, st>>
  /\ LogM([n |-> "load", name |-> name, unk |-> unk], IF unk THEN {} ELSE Writes(p), "no")
\* refused before anything happens
SaveBad(w) ==
  /\ Ready
  /\ (w = "unnamed" => design = "") /\ (w = "current" => design = T)
  /\ st' = "Fault" /\ UNCHANGED <<files, base, design, unk, taint, touched>> /\ UNCHANGED core
  /\ Log([n |-> "savebad", w |-> w], {})
\* something goes wrong half way: a part raises, or the file cannot be written
SaveFail(w, name) ==
  /\ Ready /\ st' = "Fault" /\ taint' = TRUE
  /\ UNCHANGED <<files, base, design, unk, touched>> /\ UNCHANGED core
  /\ Log([n |-> "savefail", w |-> w, name |-> name], {})
\* the file of a design is damaged or gone: nothing is touched
LoadBad(name, w) ==
  /\ Ready /\ name \in Saved \cap Names
  /\ st' = "Fault" /\ UNCHANGED <<files, base, design, unk, taint, touched>> /\ UNCHANGED core
  /\ Log([n |-> "loadbad", name |-> name, w |-> w], {})
\* a child refuses its writes
LoadFail(name, c) ==
  /\ Ready /\ name \in Saved /\ Exists(files[name].exps) /\ \E w \in Writes(files[name]) : w[1] = c
  /\ st' = "Fault" /\ unk' = TRUE /\ taint' = TRUE
  /\ UNCHANGED <<files, base, design, touched>> /\ UNCHANGED core
  /\ Log([n |-> "loadfail", name |-> name, c |-> c], {})
Reset ==
  /\ st = "Fault" /\ st' = "Ready" /\ UNCHANGED <<files, base, design, unk, taint, touched>> /\ UNCHANGED core
  /\ Log([n |-> "reset"], {})
\* disable and reset the manager: nothing is lost
Cycle ==
  /\ Ready /\ UNCHANGED <<files, base, design, st, unk, taint, touched>> /\ UNCHANGED core
  /\ Log([n |-> "cycle"], {})

Some(S, k) == IF Hist THEN LET U == {z \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(U) THEN k ELSE Cardinality(U), U) ELSE S
SomeE(S, k) == Some(S, k)
Srcs == {<<1, "a">>, <<1, "n">>, <<2, "b">>, <<3, "d">>, <<1, "m">>}
Rows == {<<q, nm>> : q \in Srcs, nm \in {"ex", "ey", "ez"}}
ExpName(r) == IF r[2] = "" THEN r[1][2] ELSE r[2]
ExpSets == {<<>>} \cup {<<r>> : r \in Rows} \cup {<<q, r>> \in Rows \X Rows : ExpName(q) # ExpName(r)}
SmallExps == {<<>>, <<<< <<1, "a">>, "ex" >>>>}
PickExps(k) == IF Hist THEN SomeE(ExpSets, k) ELSE SmallExps
Packs == {[k |-> [c \in Kids |-> [a |-> av, b |-> bv]], d |-> dv, vis |-> [c \in Kids |-> c # hid],
           x |-> [c \in Kids |-> xv], exps |-> e, own |-> <<ov, av>>] :
            av \in Some(V, 2), bv \in Some(V, 2), dv \in Some(V, 1), hid \in Some(0..3, 1), xv \in Some(V, 1), e \in {q \in PickExps(1) : Len(q) = 2 => q[1][1] # q[2][1]}, ov \in Some(V, 1)}
W(k) == IF Hist THEN 1..k ELSE {1}
Next ==
  \/ st = "Boot" /\ \E t \in Some(Packs, 1), pre \in Some(Packs, 1) \cup {NoFile}, init \in Some({"", T, "d1"}, 1) : Boot(t, pre, init)
  \/ \E z \in W(5) : \E c \in Some(Kids, 1), f \in Some({"a", "b", "n", "s", "d"}, 1), v \in Some(V, 1) : Put(c, f, v)
  \/ \E z \in W(3) : \E c \in Some(Kids, 1), v \in Some(V, 1), w \in Some(V, 1) : Drift(c, v, w)
  \/ \E z \in W(2) : \E v \in (IF d = -1 THEN Some(V, 1) ELSE {-1}) : Dyn(v)
  \/ \E z \in W(2) : \E c \in Some(Kids, 1), vv \in Some(BOOLEAN, 1), xx \in Some(V, 1) : Layout(c, vv, xx)
  \/ \E z \in W(2) : \E e \in PickExps(1) : Exports(e)
  \/ \E i \in Some({1, 2}, 1), v \in Some(V, 1) : Own(i, v)
  \/ \E z \in W(3) : \E name \in Some(Names \cup {""}, 1) : Save(name)
  \/ \E z \in W(4) : \E name \in Some(All \cup {""}, 1) : Load(name)
  \/ \E w \in Some({"template", "unnamed", "current"}, 1) : SaveBad(w)
  \/ \E w \in Some({"part", "path"}, 1), name \in Some(Names, 1) : SaveFail(w, name)
  \/ \E name \in Some(Names, 1), w \in Some({"gone", "broken"}, 1) : LoadBad(name, w)
  \/ \E name \in Some(All, 1), c \in Some(Kids, 1) : LoadFail(name, c)
  \/ \E z \in W(6) : Reset
  \/ Cycle

\* ---- what must hold
NowM == Mod([a |-> a, b |-> b, d |-> d, vis |-> vis, exps |-> exps, base |-> base, touched |-> touched, taint |-> taint])
CleanAfter == [][act'.n \in {"save", "load"} => NowM' # "yes"]_vars
Restored == [][act'.n = "load" /\ act'.name # "" =>
                 LET p == files[act'.name] IN
                 /\ \A c \in Kids : p.k[c].a = a'[c] /\ p.k[c].b = b'[c]
                 /\ vis' = p.vis /\ x' = p.x /\ exps' = p.exps /\ own' = p.own]_vars
TemplateKept == [][files'[T] # files[T] => act'.n = "boot"]_vars
\* saving and loading the same design straight away changes nothing and needs no writes
RoundTrip == (st = "Ready" /\ ~unk /\ design \in Names /\ files[design] = Pack) => Writes(files[design]) = {}
View == view
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
\* bounds for model checking: at most two designs, one child with free settings
McPack(av, bv, hid) == [k |-> [c \in Kids |-> [a |-> av, b |-> bv]], d |-> 0, vis |-> [c \in Kids |-> c # hid], x |-> Zero, exps |-> <<>>, own |-> <<0, 1>>]
McNext ==
  \/ st = "Boot" /\ \E av, bv \in V, hid \in {0, 1}, i \in {"", T} : Boot(McPack(av, bv, hid), NoFile, i)
  \/ \E c \in {1, 3}, f \in {"a", "b", "d"}, v \in V : (c = 3 <=> f = "d") /\ Put(c, f, v)
  \/ \E v \in (IF d = -1 THEN {1} ELSE {-1}) : Dyn(v)
  \/ \E vv \in BOOLEAN : Layout(1, vv, 0)
  \/ \E e \in SmallExps : Exports(e)
  \/ Own(1, 1)
  \/ \E name \in Names \cup {""} : Save(name)
  \/ \E name \in All \cup {""} : Load(name)
  \/ \E w \in {"template", "unnamed", "current"} : SaveBad(w)
  \/ SaveFail("part", "d1")
  \/ LoadBad("d1", "gone")
  \/ \E name \in All : LoadFail(name, 1)
  \/ Reset
McNextQ ==
  \/ st = "Boot" /\ \E hid \in {0, 1}, i \in {"", T} : Boot(McPack(1, 1, hid), NoFile, i)
  \/ \E f \in {"a", "b"}, v \in V : Put(1, f, v)
  \/ \E vv \in BOOLEAN : Layout(1, vv, 0)
  \/ \E e \in SmallExps : Exports(e)
  \/ \E name \in Names \cup {""} : Save(name)
  \/ \E name \in All \cup {""} : Load(name)
  \/ \E w \in {"template", "unnamed", "current"} : SaveBad(w)
  \/ SaveFail("part", "d1")
  \/ \E name \in All : LoadFail(name, 1)
  \/ Reset
=============================================================================
