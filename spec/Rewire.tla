------------------------------- MODULE Rewire -------------------------------
(* P04, P06, P19: random documents in which some references lead elsewhere: *)
(* to another object of the same space, of any kind, also to the referring  *)
(* object itself, to one that contains it, or to one that another object    *)
(* refers to as well.  What contains itself is not a document.              *)
EXTENDS Emit
CONSTANTS Salt, Lays
SpOf(i) == TLCEval(GenSection(Seed(VSeed + Salt, i), 1 + (i % 3)))
Lists == {8, 9, 10, 11}
EdgesOf(Sp) == Concat([a \in 1..Cardinality(DOMAIN Sp) |-> LET x == SetToSeq(DOMAIN Sp)[a] os == SetToSeq(DOMAIN Sp[x].objs) IN
   Concat([b \in 1..Len(os) |-> LET q == Sp[x].objs[os[b]].p IN
      Concat([j \in 1..Len(q) |-> IF q[j].t \in Lists THEN [k \in 1..Len(q[j].r) |-> <<x, os[b], j, k>>] ELSE <<>>])])])
Goal(Sp, e, s) == LET p == Sp[e[1]].objs[e[2]].p[e[3]] IN
  IF p.t \in {10, 11} THEN (IF Cardinality(DOMAIN Sp) = 1 THEN "zs9" ELSE Pick(s, 1, SetToSeq(DOMAIN Sp \ {e[1]}))) ELSE IF Coin(s, 2, 1, 6) THEN e[2] ELSE Pick(s, 3, SetToSeq(DOMAIN Sp[e[1]].objs))
Redirect(Sp, es, s) ==
  LET e == Pick(s, 1, es) y == Goal(Sp, e, Sub(s, 2)) l == Sp[e[1]].objs[e[2]].p[e[3]] IN
  CASE l.t \in {9, 11} /\ Coin(s, 3, 1, 4) -> [Sp EXCEPT ![e[1]].objs[e[2]].p[e[3]].r = Append(@, y)]
    [] l.t \in {9, 11} /\ Coin(s, 4, 1, 6) -> [Sp EXCEPT ![e[1]].objs[e[2]].p[e[3]].r = Rev(@)]
    [] OTHER -> [Sp EXCEPT ![e[1]].objs[e[2]].p[e[3]].r[e[4]] = y]
\* each redirection in the document that results from the one before
RewiredOf(i) == LET Sp == SpOf(i) es == TLCEval(EdgesOf(Sp)) s == Seed(VSeed + Salt + 1, i) m == 1 + Below(Sub(s, 9), 3) IN
  FoldLeft(LAMBDA d, k : Redirect(d, es, Sub(s, 20 + k)), Sp, [k \in 1..m |-> k])
VARIABLE n
Init == n = Shard
Next == n + Shards < Limit /\ n' = n + Shards
CaseOf(i) == LET Sp == TLCEval(RewiredOf(i)) s == Seed(VSeed + Salt + 2, i) IN
  SectionCase(<<"rewired", VSeed, Salt, i>>, Doc(Sub(s, 1), Sp), <<NoLayout>> \o [j \in 1..Lays |-> Layout(Sub(s, 10 + j))],
              Expect(Sp, Fname))
Emitted == n < Limit => EmitCase(CaseOf(n))
Sound == n < Limit => Expect(SpOf(n), Fname).ok
=============================================================================
