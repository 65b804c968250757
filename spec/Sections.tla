----------------------------- MODULE Sections -----------------------------
(* Random sections with content of all kinds, each under several layouts.   *)
EXTENDS Emit
CONSTANTS Salt, Lays
SpOf(i) == TLCEval(GenSection(Seed(VSeed + Salt, i), IF Deep = 1 THEN 2 + (i % 4) ELSE 1 + (i % 3)))
VARIABLE n
Init == n = Shard
Next == n + Shards < Limit /\ n' = n + Shards
CaseOf(i) == LET Sp == SpOf(i) s == Seed(VSeed + Salt + 1, i) IN
  SectionCase(<<"sec", VSeed, Salt, i>>, Doc(Sub(s, 1), Sp), <<NoLayout>> \o [j \in 1..Lays |-> Layout(Sub(s, 10 + j))], Expect(Sp, Fname))
Emitted == n < Limit => EmitCase(CaseOf(n))
\* every generated document is well-formed
Sound == n < Limit => Expect(SpOf(n), Fname).ok
============================================================================
