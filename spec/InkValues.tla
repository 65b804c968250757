----------------------------- MODULE InkValues -----------------------------
(* P10: boundary values of coordinates, in every form the format has for    *)
(* them; malformed paths; bounding boxes of every length and sign.          *)
EXTENDS Ink
Ones(n) == [i \in 1..n |-> 255]
\* encodings of single numbers: powers of 128 and neighbours, the 64-bit limits, forms that are not the shortest
Forms == << <<0>>, <<1>>, <<2>>, <<3>>, <<126>>, <<127>>, <<128, 1>>, <<129, 1>>, <<255, 127>>, <<254, 127>>, <<128, 128, 1>>, <<255, 255, 127>>, <<255, 255, 255, 127>>,
  <<255, 255, 255, 255, 7>>, <<254, 255, 255, 255, 15>>, <<255, 255, 255, 255, 15>>, <<128, 128, 128, 128, 16>>, <<129, 128, 128, 128, 16>>, <<255, 255, 255, 255, 31>>,
  Ones(5) \o <<1>>, Ones(6) \o <<127>>, Ones(7) \o <<127>>, Ones(8) \o <<127>>, Ones(9) \o <<1>>, Ones(8) \o <<63>>, <<254>> \o Ones(8) \o <<1>>, <<254>> \o Ones(8) \o <<0>>,
  <<128, 0>>, <<129, 0>>, <<128, 128, 128, 0>>, <<130, 128, 128, 128, 128, 128, 128, 128, 128, 0>>, <<131, 128, 128, 128, 128, 128, 128, 128, 128, 0>>,
  <<128, 128, 128, 128, 128, 128, 128, 128, 128, 1>>, <<129, 128, 128, 128, 128, 128, 128, 128, 128, 1>>,
  <<2 * 16 + 1>>, MbInt(FALSE, 16777215), MbInt(FALSE, 16777216), MbInt(FALSE, 16777217), MbInt(TRUE, 33554433), MbInt(TRUE, 8388609) >>
BadForms == << <<>>, <<128>>, <<255>>, <<128, 128>>, Ones(9), Ones(10), Ones(10) \o <<1>>, Ones(11) \o <<0>>, <<128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0>> >>
XY == <<"X", "Y">>
YX == <<"Y", "A", "X">>
Vals == << "pair", "pair3", "bad1", "bad2", "count" >>
BBs == << <<>>, LE4(1), LE4(1) \o LE4(2), LE4(1) \o LE4(2) \o LE4(3), LE4(1) \o LE4(2) \o LE4(3) \o LE4(4), LE4(10) \o LE4(20) \o LE4(3) \o LE4(4),
  LE4(1) \o LE4(2) \o LE4(3) \o LE4(4) \o LE4(5), <<1>>, <<1, 2, 3, 4, 5>>, LE4(1) \o LE4(2) \o LE4(3) \o <<1, 2, 3>>,
  <<255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255>>, <<0, 0, 0, 128, 1, 0, 0, 128, 255, 255, 255, 127, 0, 0, 0, 0>>,
  <<0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255>>, LE4(16777217) \o LE4(16777219) \o LE4(33554435) \o LE4(16777221), LE4(0) \o LE4(0) \o LE4(0) \o LE4(0) >>
Counts == << <<0>>, <<1>>, <<2>>, <<4>>, <<5>>, <<6>>, <<7>>, <<8>>, <<10>>, <<12>>, <<14>>, <<3>>, <<9>>, <<128, 1>>, <<254, 255, 255, 255, 31>>, Ones(9) \o <<1>>, <<254>> \o Ones(8) \o <<1>>, <<136, 0>>, <<137, 128, 0>>, <<>> >>
NForms == Len(Forms)
BF == Len(BadForms)
NS == Len(Scales)
PathCases ==
  [i \in 1..NForms |-> <<"value", XY, MbInt(FALSE, 4) \o Forms[i] \o Forms[(i % NForms) + 1] \o Forms[((i + 6) % NForms) + 1] \o Forms[i]>>] \o
  [i \in 1..NForms |-> <<"value3", YX, MbInt(FALSE, 3) \o Forms[i] \o Forms[((i + 3) % NForms) + 1] \o Forms[((i + 9) % NForms) + 1]>>] \o
  [i \in 1..BF |-> <<"badlast", XY, MbInt(FALSE, 2) \o <<8>> \o BadForms[i]>>] \o
  [i \in 1..BF |-> <<"badfirst", XY, MbInt(FALSE, 2) \o BadForms[i] \o <<8>>>>] \o
  [i \in 1..BF |-> <<"badcount", XY, BadForms[i] \o <<8, 8>>>>] \o
  [i \in 1..Len(Counts) |-> <<"count", XY, Counts[i] \o <<2, 4, 6, 8>>>>] \o
  [i \in 1..Len(Counts) |-> <<"count3", YX, Counts[i] \o <<2, 4, 6, 8, 10, 12>>>>] \o
  << <<"empty", XY, <<>>>>, <<"extra", XY, MbInt(FALSE, 2) \o <<2, 4, 6>>>>, <<"extra", XY, MbInt(FALSE, 2) \o <<2, 4, 255>>>> >>
NP == Len(PathCases) NB == Len(BBs)
Total == NP * NS + NB * NS * NS
SProps(a, b) == OneIf(Scales[a] # <<>>, PI("InkScalingX", IF Scales[a] = <<>> THEN Zero4 ELSE Scales[a][1])) \o OneIf(Scales[b] # <<>>, PI("InkScalingY", IF Scales[b] = <<>> THEN Zero4 ELSE Scales[b][1]))
SpOf(i) ==
  IF i < NP * NS THEN LET c == PathCases[(i \div NS) + 1] a == (i % NS) + 1 b == ((i \div 3) % NS) + 1 IN SpWith(c[3], DimProp(c[2]), <<>>, SProps(a, b))
  ELSE LET j == i - NP * NS IN SpWith(MbInt(FALSE, 4) \o <<2, 4, 6, 8>>, DimProp(XY), <<PV("InkBoundingBox", BBs[(j \div (NS * NS)) + 1])>>, SProps(((j \div NS) % NS) + 1, (j % NS) + 1))
VInit == dims = <<>> /\ np = 0 /\ h = Shard
VNext == h + Shards < Min2(Limit, Total) /\ h' = h + Shards /\ UNCHANGED <<dims, np>>
VEmitted == h < Min2(Limit, Total) => LET i == Idx(h, Total) Sp == SpOf(i) IN EmitCase(SectionCase(<<"inkvalue", i>>, BaseDoc(Sp), <<NoLayout>>, Expect(Sp, Fname)))
\* malformed numbers are rejected
VSound == h < Min2(Limit, Total) => LET i == Idx(h, Total) IN
  i < NP * NS => /\ PathCases[(i \div NS) + 1][1] \in {"badlast", "badfirst", "badcount", "empty"} => ~Expect(SpOf(i), Fname).ok
                 /\ PathCases[(i \div NS) + 1][1] \in {"value", "value3", "extra"} => Expect(SpOf(i), Fname).ok
============================================================================
