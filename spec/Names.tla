------------------------------- MODULE Names -------------------------------
(* P17: name and colour of a section: every stored name (or none) x every   *)
(* file name x every colour (or none), from memory and from disk.           *)
EXTENDS Base
One == <<46, 111, 110, 101>>
StoredNames == << <<65>>, <<65>> \o One, <<>>, One, <<46, 79, 78, 69>>, <<65, 46, 79, 110, 101>>, <<65>> \o One \o <<32>>,
  <<111, 110, 101>>, <<97, 111, 110, 101>>, <<46, 111, 110>>, One \o <<65>>, <<83, 46, 111, 110, 101, 50>>, <<8364, 20013>> \o One, <<55357, 56832>> \o One, <<65, 94, 77, 66>>, <<65, 43, 66>>,
  <<32>>, <<65, 46, 111, 110, 101, 116, 111, 99, 50>>, <<55357>>, <<65, 56832>> \o One, <<47, 65>>, <<46, 46>>, <<65, 0>> >>
Names0 == << <<83>> \o One, <<83>>, One, <<83, 46, 79, 78, 69>>, <<8364, 32, 223>> \o One, <<55357, 56832>> \o One, <<83, 46, 116, 120, 116>>, <<83>> \o One \o <<32>>, <<111, 110, 101>>, <<83, 94, 77, 46>> \o One >>
Colors == << <<>>, << <<0, 0, 0, 0>> >>, << <<255, 255, 255, 255>> >>, << <<1, 2, 3, 4>> >>, << <<255, 0, 0, 0>> >>, << <<0, 255, 0, 127>> >>, << <<0, 0, 255, 128>> >>, << <<9, 8, 7, 254>> >> >>
NSt == Len(StoredNames) + 1 NFn == Len(Names0) NCo == Len(Colors)
Total == NSt * NFn * NCo
Parts(i) == <<i % NSt, Names0[((i \div NSt) % NFn) + 1], Colors[(i \div (NSt * NFn)) + 1]>>
SpFor(c) == [BaseSp EXCEPT !["R"].objs["SM"].p = Shuffle(Seed(c[1], VSeed), @ \o OneIf(c[1] > 0, PS("SectionDisplayName", IF c[1] = 0 THEN <<>> ELSE StoredNames[c[1]]))
   \o OneIf(c[3] # <<>>, PI("SectionColor", IF c[3] = <<>> THEN Zero4 ELSE c[3][1])))]
VARIABLE n
Init == n = Shard
Next == n + Shards < Min2(Limit, Total) /\ n' = n + Shards
CaseOf(i) == LET c == Parts(i) Sp == SpFor(c) IN
  [op |-> "section", id |-> <<"name", i>>, fname |-> c[2], doc |-> BaseDoc(Sp), encs |-> <<NoLayout>>, disk |-> TRUE, expect |-> Expect(Sp, c[2])]
Emitted == n < Min2(Limit, Total) => EmitCase(CaseOf(Idx(n, Total)))
EndsWithOne(u) == Len(u) >= 4 /\ SubSeq(u, Len(u) - 3, Len(u)) = One
Sound == n < Min2(Limit, Total) => LET c == Parts(Idx(n, Total)) e == Expect(SpFor(c), c[2]) IN
  e.ok => LET base == IF c[1] = 0 THEN c[2] ELSE Dec("str", PS("SectionDisplayName", StoredNames[c[1]]))[1] IN
     /\ e.v.name \in {base, SubSeq(base, 1, Len(base) - 4)} /\ (EndsWithOne(base) <=> e.v.name # base)
     /\ (c[3] = <<>> <=> e.v.color = <<>>)
============================================================================
