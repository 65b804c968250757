------------------------------- MODULE Bases -------------------------------
(* Small documents that together have objects of every kind, and layouts    *)
(* for them: the files that Mutants changes.  They are recorded from the    *)
(* encoder (muts = 0: as they are).                                         *)
EXTENDS Toc
Some(S) == [x \in S |-> BaseObjs[x]]
Kids(o, n, q) == [o EXCEPT !.p = Append(Without(@, n), PRs(n, q))]
NoProp(o, n) == [o EXCEPT !.p = Without(@, n)]
Pg == NoProp(BaseObjs["P"], "StructureElementChildNodes")
Ou(q) == Kids(BaseObjs["O"], "ElementChildNodes", q)
El(q) == Kids(NoProp(NoProp(BaseObjs["E"], "ListNodes"), "ContentChildNodes"), "ContentChildNodes", q)
Of(top, objs) == [roots |-> BasePage.roots, objs |-> objs @@ ("P" :> Kids(Pg, "ElementChildNodes", top)) @@ Some({"M", "N"})]
InkOf(x) == {x, x \o "k", x \o "p"}
PageK(k) ==
  CASE k = 1 -> Of(<<"O">>, ("O" :> Ou(<<"E">>)) @@ ("E" :> [El(<<"X">>) EXCEPT !.p = Append(@, PRs("ListNodes", <<"L">>))]) @@ Some({"X", "S", "S1", "S2", "D", "L", "a"}))
    [] k = 2 -> Of(<<"O">>, ("O" :> Ou(<<"G">>)) @@ ("E2" :> El(<<"B">>)) @@ Some({"G", "B", "W", "C", "CE", "D2", "a"}))
    [] k = 3 -> Of(<<"I", "F2">>, Some({"I", "IC", "R", "D", "F2", "FC"}))
    [] k = 4 -> Of(<<"O", "K2">>, ("O" :> Ou(<<"E">>)) @@ ("E" :> El(<<"Y">>)) @@ Some(InkOf("J") \cup InkOf("KE") \cup {"K2", "Y", "S", "S3", "S4", "a"}))
    [] k = 5 -> [roots |-> BasePage.roots, objs |-> ("P" :> Kids(BaseObjs["P"], "ElementChildNodes", <<"I2">>)) @@ Some({"M", "N", "T", "TO", "TE", "TX", "S", "I2", "IX", "a"})]
    [] OTHER -> [roots |-> BasePage.roots, objs |-> Some({"M", "N"}) @@ ("P" :> NoProp(Pg, "ElementChildNodes"))]
SpK(k) == ("R" :> BaseRoot) @@ ("p1" :> PageK(k))
\* objects spread over two revisions
Split2(sp, via, base) == LET q == SetToSeq(DOMAIN sp.objs) IN
  [via |-> via, base |-> base, revs |-> <<[roots |-> sp.roots, objs |-> [x \in {q[j] : j \in {z \in 1..Len(q) : z % 2 = 0}} \cup {q[1]} |-> sp.objs[x]]],
                            [roots |-> None, objs |-> [x \in {q[j] : j \in {z \in 1..Len(q) : z % 2 = 1}} |-> sp.objs[x]]]>>]
Encs == <<
  [pack |-> "", enc |-> [seed |-> 1]],
  [pack |-> "new", enc |-> [seed |-> 2, w |-> "rand", shuffle |-> TRUE, split |-> 2, extra |-> 2, cid |-> "mix", salt |-> 3]],
  [pack |-> "revlegacy", decoy |-> <<"si", "sm">>, enc |-> [seed |-> 3, w |-> "rand", shuffle |-> TRUE, split |-> 1, extra |-> 1, cid |-> "same"]],
  [pack |-> "", enc |-> [seed |-> 4, w |-> "max", split |-> 3, extra |-> 1, cid |-> "seq"]]>>
SpaceVias == <<"", "serial", "cmdirect", "map">>
DocK(k, l) == LET Sp == SpK(k) d == BaseDoc(Sp) b == BlobNames(Sp) IN
  [d EXCEPT !.blobs = [x \in b |-> [b |-> <<7, 8, 9, 10>>]],
            !.spaces = [x \in DOMAIN Sp |-> IF (k + l) % 2 = 0 THEN Split2(Sp[x], SpaceVias[((k + l) % 4) + 1], IF l = 3 THEN "direct" ELSE "") ELSE @[x]]]
\* tables of contents: entries, form of the tree of containers, colour
TocK(k) == LET a == <<65, 46, 111, 110, 101>> b == <<66, 46, 111, 110, 101>> IN
  CASE k = 1 -> TocDoc(<< <<<<0, 2>>, b>>, <<<<0, 1>>, a>> >>, 0, << <<1, 2, 3, 4>> >>)
    [] k = 2 -> TocDoc(<< <<<<1, 0>>, a>>, <<<<0, 9>>, b>>, <<<<0, 9>>, <<67>>>> >>, 2, <<>>)
    [] k = 3 -> TocDoc(<< <<<<0, 4>>, <<94, 77>>>>, <<<<0, 4>>, a>>, <<<<0, 4>>, a>>, <<<<0, 5>>, b>> >>, 1, << <<9, 8, 7, 0>> >>)
    [] OTHER -> TocDoc(<< <<<<0, 1>>, a>> >>, 0, <<>>)
VARIABLE n
Total == 6 * Len(Encs) + 4
Init == n = Shard
Next == n + Shards < Min2(Limit, Total) /\ n' = n + Shards
CaseOf(i) ==
  IF i >= 6 * Len(Encs) THEN LET k == i - 6 * Len(Encs) + 1 IN
    [op |-> "record", id |-> <<"toc", k>>, doc |-> TocK(k), over |-> Encs[k], muts |-> 0, as |-> "notebook", fname |-> "n.onetoc2"]
  ELSE LET k == 1 + (i % 6) l == 1 + ((i \div 6 + i) % Len(Encs)) IN
  [op |-> "record", id |-> <<"base", k, l>>, doc |-> DocK(k, l), over |-> Encs[l], muts |-> 0, as |-> "section", fname |-> Fname]
Active == n < Min2(Limit, Total)
Emitted == Active => EmitCase(CaseOf(n))
\* every prefix of every file
CutOf(i) == LET c == CaseOf(i) IN [op |-> "truncate", id |-> c.id, doc |-> c.doc, encs |-> <<c.over>>, step |-> 1]
CutEmitted == Active => EmitCase(CutOf(n))
Sound == Active => Expect(SpK(1 + (n % 6)), Fname).ok
============================================================================
