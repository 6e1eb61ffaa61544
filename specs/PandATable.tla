----------------------------- MODULE PandATable -----------------------------
(* A table of a PandA: columns that occupy bit ranges of a row of words.     *)
(* Bits are kept as sets, so that no number exceeds what TLC can represent.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization, SequencesExt
CONSTANTS Word, MaxCols, MaxRows, Sizes, Words, Hist
VARIABLES cols,   \* columns: [lo, hi, k]   k: "u", "s" (signed) or "e" (labels)
          dev,    \* the rows on the device: sets of bit numbers
          act, hist
vars == <<cols, dev, act, hist>>
Bits(c) == c.lo .. c.hi
\* the bits of a column of a row, counted from 0
Get(c, row) == {b - c.lo : b \in {x \in row : x >= c.lo /\ x <= c.hi}}
\* a row having the given bits in its columns and none elsewhere
Put(v) == UNION {{b + cols[j].lo : b \in v[j]} : j \in 1..Len(cols)}
Table(d) == [j \in 1..Len(cols) |-> [r \in 1..Len(d) |-> Get(cols[j], d[r])]]
IntsPerRow == (CHOOSE h \in {cols[j].hi : j \in 1..Len(cols)} : \A j \in 1..Len(cols) : cols[j].hi <= h) \div Word + 1
Log(a) ==
  /\ act' = a
  /\ hist' = IF Hist THEN Append(hist, <<a, [dev |-> dev', tab |-> Table(dev')]>>) ELSE hist
Some(S, k) == IF Hist THEN LET T == {x \in S : Len(hist) >= 0} IN
                 RandomSubset(IF k < Cardinality(T) THEN k ELSE Cardinality(T), T) ELSE S
\* the device's table is set by someone else, bits that belong to no column included
Change(d) == /\ dev' = d /\ UNCHANGED cols /\ Log([n |-> "change", d |-> d, w |-> IntsPerRow])
\* a client writes rows of column values: exactly these arrive
Write(t) == /\ dev' = [r \in 1..Len(t) |-> Put(t[r])] /\ UNCHANGED cols /\ Log([n |-> "write", t |-> t, w |-> IntsPerRow])

RowBits == 0 .. (IntsPerRow * Word - 1)
Init == /\ cols \in {<<>>} /\ dev = <<>> /\ act = [n |-> "init"] /\ hist = <<>>
\* columns are laid out one after another, in increasing order, none across two words
Build(g, s, k) ==
  /\ dev = <<>> /\ Len(cols) < MaxCols /\ (Hist => Len(hist) < MaxCols) /\ act.n \in {"init", "build"}
  /\ LET l0 == IF cols = <<>> THEN g ELSE cols[Len(cols)].hi + 1 + g
         l == IF (l0 \div Word) = ((l0 + s - 1) \div Word) THEN l0 ELSE ((l0 \div Word) + 1) * Word IN
     /\ l + s <= Words * Word
     /\ cols' = Append(cols, [lo |-> l, hi |-> l + s - 1, k |-> IF k = "e" /\ s < 2 THEN "u" ELSE k])
  /\ UNCHANGED dev /\ Log([n |-> "build", c |-> cols'[Len(cols')]])
\* a column with labels has four of them
Force(row) == row \ UNION {{b \in Bits(cols[j]) : cols[j].k = "e" /\ b > cols[j].lo + 1} : j \in 1..Len(cols)}
SomeRows == IF Hist THEN {SetToSeq(RandomSetOfSubsets(MaxRows, (IntsPerRow * Word) \div 2, RowBits)),
                          SetToSeq(RandomSetOfSubsets(2, IntsPerRow * Word - 2, RowBits)), <<>>}
            ELSE UNION {[1..n -> SUBSET RowBits] : n \in 0..MaxRows}
Rows(b) == [r \in 1..Len(b) |-> Force(b[r])]

\* The description a device gives of itself: which fields its blocks have, and of what type.
\* A client has the blocks by name, the fields of each by their index, and labels for those types that have them.
Blocks == <<"AX", "PCAP", "Z">>
FNames == <<"F1", "F2", "F3">>
Types == {<<"bit_mux", "">>, <<"pos_mux", "">>, <<"param", "enum">>, <<"param", "uint">>, <<"ext_out", "bits">>,
          <<"ext_out", "timestamp">>, <<"table", "">>, <<"none", "">>}
Labels(t) == IF t[1] \in {"bit_mux", "pos_mux"} \/ t[2] = "enum" THEN "F" ELSE IF t[1] = "ext_out" THEN "C" ELSE "-"
FieldsOf(d, up, b) ==
  LET o == IF up THEN FNames ELSE Reverse(FNames) IN
  LET s == SelectSeq(o, LAMBDA f : d[<<b, f>>][1] # "none") IN
  [j \in 1..Len(s) |-> [f |-> s[j], t |-> d[<<b, s[j]>>], l |-> Labels(d[<<b, s[j]>>])]]
Names(d) == SelectSeq(Blocks, LAMBDA b : \E j \in 1..3 : d[<<b, FNames[j]>>][1] # "none")
Described(d, up) == [j \in 1..Len(Names(d)) |-> [b |-> Names(d)[j], fs |-> FieldsOf(d, up, Names(d)[j])]]
PcapBits(d) == SelectSeq(FNames, LAMBDA f : d[<<"PCAP", f>>] = <<"ext_out", "bits">>)
Describe(d, up, q) ==
  /\ UNCHANGED <<cols, dev>> /\ act' = [n |-> "describe", q |-> q]
  /\ hist' = IF Hist THEN Append(hist, <<act', [dev |-> dev, tab |-> Table(dev), desc |-> Described(d, up),
                                              bits |-> PcapBits(d)]>>) ELSE hist
SomeDesc == RandomSubset(IF Len(hist) >= 0 THEN 1 ELSE 0, [({"AX", "PCAP", "Z"} \X {"F1", "F2", "F3"}) -> Types])
Next ==
  \/ Hist /\ act.n \in {"change", "write"} /\ \E d \in SomeDesc, up \in Some(BOOLEAN, 1), q \in Some(1..1000, 1) : Describe(d, up, q)
  \/ \E z \in (IF Hist THEN 1..12 ELSE {1}) : \E g \in Some(0..(IF Hist THEN 5 ELSE 1), 1), s \in Some(Sizes, 1), k \in Some({"u", "s", "e"}, 1) : Build(g, s, k)
  \/ cols # <<>> /\ \E b \in SomeRows : Change(Rows(b))
  \/ cols # <<>> /\ \E b \in SomeRows : Write([r \in 1..Len(b) |-> [j \in 1..Len(cols) |-> Get(cols[j], Force(b[r]))]])
\* columns share no bit, lie within one word each, and what is written is what is read
Laid == \A j \in 1..Len(cols) : /\ cols[j].lo \div Word = cols[j].hi \div Word
                                 /\ \A i \in 1..Len(cols) : i # j => Bits(cols[i]) \cap Bits(cols[j]) = {}
Back == act.n = "write" => \A r \in 1..Len(dev) : \A j \in 1..Len(cols) : Table(dev)[j][r] = act.t[r][j]
View == <<cols, dev, act>>
SimEmit == Len(hist) = atoi(IOEnv.VF_DEPTH) => PrintT("@T" \o ToJson(hist))
=============================================================================
