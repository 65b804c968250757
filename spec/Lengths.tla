------------------------------ MODULE Lengths ------------------------------
(* P03, P04: stored lengths and counts of every kind of property that do    *)
(* not agree with what follows, at the end of an object and before other    *)
(* properties, also inside nested property sets.                            *)
EXTENDS Bases
B4(x) == LE4(x)
Counts(m) == <<B4(m + 1), B4(m + 2), B4(m + 3), B4(m + 7), B4(m + 8), B4(m + 100), B4(255), B4(256), B4(65535), B4(65536), B4(16777216),
  <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<254, 255, 255, 255>>, <<255, 255, 255, 255>>>> \o (IF m > 0 THEN <<B4(m - 1), B4(0)>> ELSE <<>>)
Str3 == <<66, 0, 67, 0, 68, 0>>
\* property, number of things it holds
Props0 == <<
  <<[n |-> "CachedTitleStringFromPage", t |-> 7, v |-> Str3], 6>>,
  <<[n |-> "0x1234", t |-> 7, v |-> Str3], 6>>,
  <<[n |-> "0x1234", t |-> 7, v |-> <<>>], 0>>,
  <<[n |-> "0x1234", t |-> 9, r |-> <<"M">>], 1>>,
  <<[n |-> "0x1234", t |-> 9, r |-> <<>>], 0>>,
  <<[n |-> "0x1234", t |-> 11, r |-> <<"R">>], 1>>,
  <<[n |-> "0x1234", t |-> 13, r |-> <<>>], 0>>,
  <<[n |-> "0x1234", t |-> 16, s |-> << <<PI("0x77", <<1>>)>>, <<>> >>], 2>>,
  <<[n |-> "0x1234", t |-> 16, s |-> <<>>], 0>>,
  <<[n |-> "NoteTags", t |-> 16, s |-> << <<[n |-> "0x1234", t |-> 7, v |-> Str3]>> >>], 1>> >>
CountNo == 17
NthProp(i, j) == LET p == Props0[i] cs == Counts(p[2]) IN [p[1] EXCEPT !.n = @] @@ [cnt |-> cs[IF j <= Len(cs) THEN j ELSE 1]]
\* the bad property inside a set inside a set
Deeper(p, d) == IF d = 0 THEN p ELSE IF d = 1 THEN PSets("0x88", << <<PI("0x99", <<5>>), p>> >>) ELSE [n |-> "0x88", t |-> 17, s |-> << <<PSets("0x89", << <<p>> >>)>> >>]
\* where: last, first; depth 0..2
Total2 == Len(Props0) * CountNo * 2 * 3
HostProps(i) ==
  LET pr == 1 + (i % Len(Props0)) j == 1 + ((i \div Len(Props0)) % CountNo) r == i \div (Len(Props0) * CountNo) p == Deeper(NthProp(pr, j), r \div 2) IN
  LET base == PageK(6).objs["P"].p IN IF r % 2 = 0 THEN Append(base, p) ELSE <<p>> \o base
LDoc(i) == LET d == BaseDoc(SpK(6)) IN [[d EXCEPT !.blobs = None] EXCEPT !.spaces["p1"].revs[1].objs["P"].p = HostProps(i)]
LCase(i) == [op |-> "record", id |-> <<"length", i + 1000>>, doc |-> LDoc(i), over |-> [pack |-> "", enc |-> [seed |-> 1 + (i % 7)]], muts |-> 0, as |-> "section", fname |-> Fname]
LNext == n + Shards < Min2(Limit, Total2) /\ n' = n + Shards
LEmitted == n < Min2(Limit, Total2) => EmitCase(LCase(n))
============================================================================
