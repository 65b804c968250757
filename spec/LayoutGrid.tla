----------------------------- MODULE LayoutGrid -----------------------------
(* P02, P18: the page with an object of every kind, stored under every      *)
(* combination of the layout choices.                                       *)
EXTENDS Base
Ws == <<"", "rand", "max">>
Cids == <<"uniq", "target", "same", "mix", "seq", "allsame">>
Vias == <<"", "cmdirect", "serial", "direct", "map">>
Total == 3 * 2 * 3 * 3 * 6 * 5 * 2
D(i, k, m) == (i \div k) % m
EncOf(i) == [seed |-> i + VSeed, w |-> Ws[D(i, 1, 3) + 1], shuffle |-> D(i, 3, 2) = 1, split |-> 1 + D(i, 6, 3), extra |-> D(i, 18, 3), cid |-> Cids[D(i, 54, 6) + 1], salt |-> i % 9]
Packs == <<"", "new", "revlegacy">>
Decoys == << <<>>, <<"si">>, <<"sm">>, <<"si", "sm">> >>
Lays(i) == [j \in 1..12 |-> [pack |-> Packs[((j - 1) % 3) + 1], decoy |-> Decoys[((j - 1) \div 3) + 1], enc |-> EncOf(i)]]
DocOf(i) == LET via == Vias[D(i, 324, 5) + 1] base == IF D(i, 1620, 2) = 0 THEN "" ELSE "direct"
                d == BaseDoc(BaseSp) IN
            [d EXCEPT !.spaces = [x \in DOMAIN @ |-> LET r == d.spaces[x].revs[1] IN
                [via |-> via, base |-> base, revs |-> <<[roots |-> r.roots, objs |-> None], [roots |-> None, objs |-> r.objs]>>]]]
VARIABLE n
Init == n = Shard
Next == n + Shards < Min2(Limit, Total) /\ n' = n + Shards
CaseOf(i) == SectionCase(<<"grid", i>>, DocOf(i), Lays(i), Expect(BaseSp, Fname))
Active == n < Min2(Limit, Total)
Emitted == Active => EmitCase(CaseOf(Idx(n, Total)))
Sound == Active => Expect(BaseSp, Fname).ok
============================================================================
