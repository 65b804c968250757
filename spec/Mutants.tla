------------------------------ MODULE Mutants ------------------------------
(* P03, P18, P04: files with one change at one byte (or a few changes); the *)
(* byte-level reader of Store says what they mean.                          *)
EXTENDS TocStore
CONSTANTS BaseFile, Salt, Mode
ASSUME TLCSet(5, TLCEval(ndJsonDeserialize(BaseFile)))
Base0 == TLCGet(5)
NBases == Len(Base0)
\* an edit: position, bytes removed from there, bytes put there
Apply(B, e) == SubSeq(B, 1, e.at - 1) \o e.put \o SubSeq(B, e.at + e.del, Len(B))
Edit(i, m, bs) == [at |-> i, del |-> m, put |-> bs]
Classes == 23
One(B, i, c, s) ==
  LET b == B[i] IN
  CASE c < 8 -> Edit(i, 1, <<IF (b \div 2^c) % 2 = 1 THEN b - 2^c ELSE b + 2^c>>)
    [] c = 8 -> Edit(i, 1, <<0>>) [] c = 9 -> Edit(i, 1, <<255>>)
    [] c = 10 -> Edit(i, 1, <<(b + 1) % 256>>) [] c = 11 -> Edit(i, 1, <<(b + 255) % 256>>)
    [] c = 12 -> Edit(i, 1, <<>>) [] c = 13 -> Edit(i, 0, <<b>>) [] c = 14 -> Edit(i, 0, <<0>>)
    [] c = 15 -> Edit(i, Len(B) - i + 1, <<>>)
    [] c = 16 -> Edit(i, 1, <<128>>)
    [] c = 17 -> Edit(i, 1, <<Below(s, 256)>>)
    \* a part is removed, put twice
    [] c = 18 -> LET m == Below(s, 40) IN Edit(i, MinOf({m, Len(B) - i + 1}), <<>>)
    \* the largest numbers
    [] c = 20 -> Edit(i, 1, <<128, 255, 255, 255, 255, 255, 255, 255, 255>>)
    [] c = 21 -> Edit(i, MinOf({4, Len(B) - i + 1}), <<255, 255, 255, 255>>)
    [] c = 22 -> Edit(i, MinOf({4, Len(B) - i + 1}), <<255, 255, 255, 127>>)
    [] OTHER -> LET m == Below(s, 40) IN Edit(i, 0, SubSeq(B, i, MinOf({i + m - 1, Len(B)})))
SeedOf(i) == Seed(VSeed + Salt + (i \div 50000), i % 50000)
EditsOf(i) ==
  LET s == SeedOf(i) B == Base0[1 + (i % NBases)].b
      at(q) == 1 + Below(Sub(s, q), Len(B)) cl(q) == Below(Sub(s, q + 100), Classes)
  IN IF Coin(s, 9, 1, 6) THEN LET p == at(1) q == at(2) IN IF p < q THEN <<One(B, q, cl(2) % 15, Sub(s, 3)), One(B, p, cl(1) % 15, Sub(s, 4))>> ELSE <<One(B, p, cl(1), Sub(s, 4))>>
     ELSE <<One(B, at(1), cl(1), Sub(s, 4))>>
\* many changes, from the end to the beginning
Mild == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 16, 17, 19>>
WildOf(i) ==
  LET s == SeedOf(i) B == Base0[1 + (i % NBases)].b m == 2 + Below(Sub(s, 1), 10)
      at == {1 + Below(Sub(s, 20 + q), Len(B)) : q \in 1..m}
      ats == Rev(SetToSortSeq(at, LAMBDA a, b : a < b))
  IN [q \in 1..Len(ats) |-> One(B, ats[q], Pick(Sub(s, 50 + q), 1, Mild), Sub(s, 90 + q))]
\* classes Cls at every byte, of the files with the plainest layout one after another
Plainest == SelectSeq([k \in 1..NBases |-> k], LAMBDA k : k % 4 = 1 \/ Base0[k].as # "section")
Steps == <<10, 11>>
RECURSIVE Locate(_, _)
Locate(bs, p) == IF p <= Len(Base0[Head(bs)].b) THEN <<Head(bs), p>> ELSE Locate(Tail(bs), p - Len(Base0[Head(bs)].b))
SizeOf(bs) == FoldLeft(LAMBDA a, k : a + Len(Base0[k].b), 0, bs)
NthOf(bs, cls, i) == LET l == Locate(bs, 1 + (i \div Len(cls))) IN
  [k |-> l[1], es |-> <<One(Base0[l[1]].b, l[2], cls[1 + (i % Len(cls))], SeedOf(i))>>]
\* the largest numbers at every byte; a few bytes repeated very often
Largest == <<20, 21, 22>>
RepLens == <<1, 2, 3, 4, 6, 8, 12, 16, 24>>
RepeatOf(i) == LET l == Locate(Plainest, 1 + (i \div Len(RepLens))) B == Base0[l[1]].b IN
  [k |-> l[1], es |-> <<[at |-> l[2], del |-> 0, times |-> 20000, put |-> SubSeq(B, l[2], MinOf({Len(B), l[2] + RepLens[1 + (i % Len(RepLens))] - 1}))]>>]
Change(i) ==
  CASE Mode = "plain" -> [k |-> 1 + i, es |-> <<>>]
    [] Mode = "random" -> [k |-> 1 + (i % NBases), es |-> EditsOf(i)]
    [] Mode = "wild" -> [k |-> 1 + (i % NBases), es |-> WildOf(i)]
    [] Mode = "step" -> NthOf(Plainest, Steps, i)
    [] Mode = "cut" -> NthOf(Plainest, <<15>>, i)
    [] Mode = "huge" -> NthOf(Plainest, Largest, i)
    [] Mode = "repeat" -> RepeatOf(i)
    [] OTHER -> NthOf([k \in 1..NBases |-> k], [c \in 1..Classes |-> c - 1], i)
Total == CASE Mode = "plain" -> NBases [] Mode \in {"random", "wild"} -> Limit [] Mode = "step" -> SizeOf(Plainest) * 2 [] Mode = "cut" -> SizeOf(Plainest)
           [] Mode = "huge" -> SizeOf(Plainest) * 3 [] Mode = "repeat" -> SizeOf(Plainest) * Len(RepLens)
           [] OTHER -> SizeOf([k \in 1..NBases |-> k]) * Classes
Bound == IF Limit < Total THEN Limit ELSE Total
VARIABLE n
Init == n = Shard
Next == n + Shards < Bound /\ n' = n + Shards
Changed(k, es) == FoldLeft(LAMBDA b, e : Apply(b, e), Base0[k].b, es)
\* where there are fewer cases than all, they are spread over the whole
Spread(i) == IF Mode \in {"plain", "random", "wild"} \/ Bound = Total THEN i ELSE ((((i % 40000) * 7919) % Total) + ((i \div 40000) * 40009)) % Total
CaseOf(i) ==
  LET x == TLCEval(Change(i)) B == IF Mode = "repeat" THEN <<>> ELSE TLCEval(Changed(x.k, x.es)) IN
  IF Base0[x.k].as = "section"
  THEN [op |-> "bytes", id |-> <<"mutant", x.k, x.es>>, base |-> x.k, edits |-> x.es, fname |-> Fname, expect |-> IF Mode = "repeat" THEN [any |-> TRUE] ELSE Meaning(B, Fname)]
  ELSE [op |-> "notebook", id |-> <<"mutant", x.k, x.es>>, expect |-> IF Mode = "repeat" THEN [any |-> TRUE] ELSE TocMeaning(B), open |-> "n.onetoc2",
        tree |-> << [p |-> "n.onetoc2", t |-> "file", base |-> x.k, edits |-> x.es], [p |-> NameA, t |-> "file", doc |-> SecDoc(1)], [p |-> NameB, t |-> "file", doc |-> SecDoc(2)] >>]
Active == n < Bound
Emitted == Active => EmitCase(CaseOf(Spread(n)))
\* the files themselves are well-formed
Sound == (Mode # "plain" /\ Active /\ n < NBases) => (IF Base0[n + 1].as = "section" THEN Meaning(Base0[n + 1].b, Fname) ELSE TocMeaning(Base0[n + 1].b)).ok
============================================================================
