------------------------------- MODULE Blobs -------------------------------
(* P11: every assignment of stored blobs to the containers of a page (also  *)
(* shared, also none), contents of every boundary size and contents that    *)
(* look like parts of the stream, and every choice of one missing blob.     *)
EXTENDS Base
Names == <<"", "b1", "b2", "b3">>
\* <<container of the first image, of the second, of the attachments>>
Assign(i) == <<Names[(i % 4) + 1], Names[((i \div 4) % 4) + 1], Names[((i \div 16) % 4) + 1]>>
Sizes == <<0, 1, 2, 3, 31, 32, 63, 64, 126, 127, 128, 129, 255, 256, 257, 8191, 8192, 16383, 16384, 32766, 32767, 32768, 65535, 65536, 70000>>
BigSizes == <<131071, 131072, 2097151, 2097152, 3000001>>
Looks == << <<>>, <<0>>, <<0, 0, 0, 0, 0, 0, 0, 0>>, <<5>>, <<9>>, <<5, 22, 4>>, <<121>>, <<125, 0>>, <<85>>, <<22, 0, 13>>, <<100, 16, 12, 0, 125, 0, 84, 65>>, <<1, 2, 3, 121, 85, 5, 13, 9>>,
  <<16, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<2, 0, 120, 0, 5>>, <<10, 42, 98, 2, 1>>, <<228, 82, 92, 123, 140, 216, 167, 77, 174, 177, 83, 120, 208, 41, 150, 211>> >>
NL == Len(Looks) NZ == Len(Sizes)
Lit(k) == [b |-> Looks[(k % NL) + 1]]
Sized(k, s) == [n |-> Sizes[(k % NZ) + 1], s |-> s]
\* equal contents under different names, equal sizes, prefixes of each other
Contents(k) ==
  CASE k < NL -> [b1 |-> Lit(k), b2 |-> Lit(k), b3 |-> Lit(k + 1)]
    [] k < NL + NZ -> LET j == k - NL IN [b1 |-> Sized(j, 1), b2 |-> Sized(j, 2), b3 |-> Sized(j + 1, 1)]
    [] OTHER -> LET j == k - NL - NZ IN [b1 |-> [n |-> BigSizes[(j % 5) + 1], s |-> 3], b2 |-> Lit(j), b3 |-> Sized(j, 4)]
NC == NL + NZ + (IF Deep = 1 THEN 5 ELSE 2)
Total == 64 * NC * 4
Parts(i) == <<Assign(i % 64), Contents((i \div 64) % NC), Names[(i \div (64 * NC)) + 1]>>
B1(x) == IF x = "" THEN <<>> ELSE <<x>>
SpFor(a) == [BaseSp EXCEPT !["p1"].objs["IC"].b = B1(a[1]), !["p1"].objs["IX"].b = B1(a[2]), !["p1"].objs["FC"].b = B1(a[3])]
Missing(c) == c[3] # "" /\ c[3] \in {c[1][1], c[1][2], c[1][3]}
ExpectOf(c) == IF Missing(c) THEN [ok |-> FALSE] ELSE Expect(SpFor(c[1]), Fname)
VARIABLE n
Init == n = Shard
Next == n + Shards < Min2(Limit, Total) /\ n' = n + Shards
CaseOf(i) == LET c == Parts(i) s == Seed(VSeed + 5, i) IN
  SectionCase(<<"blobs", i>>, BaseDoc(SpFor(c[1])) @@ [drop |-> IF c[3] = "" THEN <<>> ELSE <<"blob:" \o c[3]>>], <<NoLayout, Layout(s)>>, ExpectOf(c))
\* BaseDoc has blobs of its own
WithBlobs(cs, m) == [cs EXCEPT !.doc.blobs = m]
Emitted == n < Min2(Limit, Total) => LET i == Idx(n, Total) IN EmitCase(WithBlobs(CaseOf(i), Parts(i)[2]))
\* the images and attachments show exactly the assigned blobs
Show(x) == IF x = "" THEN ("$blob" :> <<>>) ELSE ("$blob" :> x)
Flat(e) == e.v.series[1][1].contents
Sound == n < Min2(Limit, Total) => LET c == Parts(Idx(n, Total)) e == ExpectOf(c) IN
  IF Missing(c) \/ c[1][3] = "" THEN ~e.ok
  ELSE /\ e.ok
       /\ LET x == Flat(e)[1].items[2].contents IN
          x[3].data = <<Show(c[1][1])>>
       /\ Flat(e)[2].data = <<Show(c[1][2])>>
       /\ Flat(e)[3].data = Show(c[1][3])
============================================================================
