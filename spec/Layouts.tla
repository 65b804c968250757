------------------------------ MODULE Layouts ------------------------------
(* P02, P01, P18: random documents whose objects are spread over several    *)
(* revisions (with obsolete versions of objects and roots in the older      *)
(* ones), whose spaces are found in every way and have several contexts,    *)
(* next to spaces and elements nothing refers to, each stored under many    *)
(* physical layouts: all of them show the same section.                     *)
EXTENDS Emit
CONSTANTS Salt, Lays
Vias == <<"", "", "cmdirect", "serial", "direct", "map">>
Obsolete(s, o) == CASE Coin(s, 1, 1, 3) -> Obj("0x0006FFFF", <<>>) [] Coin(s, 2, 1, 2) -> [o EXCEPT !.p = <<>>, !.b = <<>>] [] OTHER -> Obj("TitleNode", <<>>)
\* object i of a space is current in revision Where(s, i, k)
Where(s, i, k) == 1 + Below(Sub(s, i), k)
RevOf(s, sp, names, r, k) ==
  LET here == {i \in 1..Len(names) : Where(s, i, k) = r}
      old == {i \in 1..Len(names) : Where(s, i, k) > r /\ Coin(Sub(s, 50 + r), i, 1, 3)}
      roles == SetToSeq(DOMAIN sp.roots)
      rr(j) == Where(Sub(s, 7), j, k)
  IN [objs |-> [x \in {names[i] : i \in here \cup old} |-> LET i == CHOOSE i \in 1..Len(names) : names[i] = x IN
                   IF i \in here THEN sp.objs[x] ELSE Obsolete(Sub(s, 90 + i), sp.objs[x])],
      roots |-> [x \in {roles[j] : j \in {j \in 1..Len(roles) : rr(j) = r \/ (rr(j) > r /\ Coin(Sub(s, 60 + r), j, 1, 2))}} |->
                   LET j == CHOOSE j \in 1..Len(roles) : roles[j] = x IN IF rr(j) = r THEN sp.roots[x] ELSE Pick(Sub(s, 70), r + j, names)]]
SpaceDoc(s, sp) ==
  LET names == SetToSeq(DOMAIN sp.objs) k == Pick(s, 1, <<1, 1, 2, 3>>)
      \* revisions after the current one are not part of the space
      more == IF Coin(s, 2, 1, 4) THEN <<[objs |-> (names[1] :> Obj("0x0006FFFF", <<>>)), roots |-> [content |-> names[1]]]>> ELSE <<>>
  IN [via |-> Pick(s, 3, Vias), base |-> Pick(s, 4, <<"", "direct">>), ctx |-> Pick(s, 5, <<"", "", "c1", "c2", "nil">>), cur |-> k,
      revs |-> [r \in 1..k |-> RevOf(Sub(s, 6), sp, names, r, k)] \o more]
\* spaces nothing refers to
Idle(s) == (IF Coin(s, 1, 1, 3) THEN ("z1" :> [revs |-> <<>>]) ELSE None) @@
           (IF Coin(s, 2, 1, 3) THEN ("z2" :> [ctx |-> "c1", revs |-> <<[objs |-> ("P" :> Obj("0x0006FFFF", <<>>)), roots |-> [content |-> "P"]]>>]) ELSE None)
SpOf(i) == TLCEval(GenSection(Seed(VSeed + Salt, i), IF Deep = 1 THEN 1 + (i % 3) ELSE 1 + (i % 2)))
DocOf(i) == LET Sp == SpOf(i) s == Seed(VSeed + Salt + 1, i) IN
  [Doc(Sub(s, 1), Sp) EXCEPT !.spaces = [x \in DOMAIN Sp |-> SpaceDoc(Sub(s, Len(x) * 7 + (CASE x = "R" -> 1 [] x = "p1" -> 2 [] x = "p2" -> 3 [] OTHER -> 4)), Sp[x])] @@ Idle(Sub(s, 5))]
VARIABLE n
Init == n = Shard
Next == n + Shards < Limit /\ n' = n + Shards
CaseOf(i) == SectionCase(<<"layouts", VSeed, Salt, i>>, DocOf(i), <<NoLayout>> \o [j \in 1..Lays |-> Layout(Seed(VSeed + 3 * i, j))], Expect(SpOf(i), Fname))
Emitted == n < Limit => EmitCase(CaseOf(n))
\* to be read by the byte-level reader (Store)
REmitted == n < Limit => EmitCase([op |-> "record", id |-> <<"layout", n>>, doc |-> DocOf(n), over |-> Layout(Seed(VSeed + 3 * n, 1)), muts |-> 0, as |-> "section", fname |-> Fname])
\* reading the revisions gives the document they were made from
RECURSIVE ReadBack(_, _, _)
ReadBack(revs, k, acc) == IF k = 0 THEN acc ELSE ReadBack(revs, k - 1, [roots |-> acc.roots @@ revs[k].roots, objs |-> acc.objs @@ revs[k].objs])
Empty0 == [roots |-> None, objs |-> None]
Sound == n < Limit => LET Sp == SpOf(n) d == DocOf(n) IN
  /\ Expect(Sp, Fname).ok
  /\ \A x \in DOMAIN Sp : LET v == ReadBack(d.spaces[x].revs, d.spaces[x].cur, Empty0) IN v.roots = Sp[x].roots /\ v.objs = Sp[x].objs
============================================================================
