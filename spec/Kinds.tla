------------------------------- MODULE Kinds -------------------------------
(* P14: every entry point x every content x every schema (also every        *)
(* identifier that differs from a known one in one bit) x every container   *)
(* format (also unknown ones and neighbours of the known ones).             *)
EXTENDS Toc
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
SecSchema == <<1,15,9,3,7,12,11,4, 11,2,6,15, 4,4,5,15, 11,9,15,8, 1,7,14,2,0,1,6,0,14,4,6,1>>
TocSchema == <<14,4,13,11,15,13,3,8, 14,5,12,7, 4,0,8,11, 10,8,10,1, 0,14,7,11,4,2,1,14,1,15,5,15>>
PkgFormat == <<6,3,8,13,14,9,2,15, 10,6,13,4, 4,11,12,1, 9,10,3,6, 11,3,15,12,2,5,1,1,10,5,11,7>>
RevFormat == <<1,0,9,10,13,13,3,15, 9,1,1,11, 4,9,15,5, 10,5,13,0, 1,7,9,1,14,13,12,8,10,14,13,8>>
RECURSIVE HexStr(_)
HexStr(q) == IF q = <<>> THEN "" ELSE Hex[Head(q) + 1] \o HexStr(Tail(q))
Pow2(b) == CASE b = 0 -> 1 [] b = 1 -> 2 [] b = 2 -> 4 [] OTHER -> 8
FlipBit(q, j) == LET d == (j \div 4) + 1 w == Pow2(j % 4) IN [q EXCEPT ![d] = IF (@ \div w) % 2 = 1 THEN @ - w ELSE @ + w]
Fixed == << <<"section", SecSchema>>, <<"toc", TocSchema>>, <<"nil", [j \in 1..32 |-> 0]>>, <<"ones", [j \in 1..32 |-> 15]>>, <<"format", RevFormat>> >>
SchemaOf(j) == IF j <= 5 THEN Fixed[j] ELSE IF j <= 133 THEN <<"near", FlipBit(SecSchema, j - 6)>> ELSE <<"near", FlipBit(TocSchema, j - 134)>>
NSchema == 261
Entries3 == <<"section", "disk", "notebook">>
Packs == <<"", "new", "revlegacy">>
FormatOf(j) == IF j = 1 THEN [x \in 1..32 |-> 3] ELSE IF j = 2 THEN [x \in 1..32 |-> 0] ELSE IF j = 3 THEN SecSchema ELSE IF j <= 131 THEN FlipBit(PkgFormat, j - 4) ELSE FlipBit(RevFormat, j - 132)
NFormat == 259
T1 == 3 * 2 * NSchema * 3
Total == T1 + 3 * 3 * NFormat
\* <<entry, content, schema, container, format (0: the right one)>>
Cell5(x) == IF x < T1 THEN <<Entries3[(x % 3) + 1], (x \div 3) % 2, ((x \div 6) % NSchema) + 1, Packs[(x \div (6 * NSchema)) + 1], 0>>
            ELSE LET y == x - T1 e == (y % 3) + 1 IN <<Entries3[e], IF e = 3 THEN 1 ELSE 0, IF e = 3 THEN 2 ELSE 1, Packs[((y \div 3) % 3) + 1], (y \div 9) + 1>>
a == <<65, 46, 111, 110, 101>>
DocFor(c) == [(IF c[2] = 0 THEN SecDoc(1) ELSE TocDoc(<< <<<<0, 1>>, a>> >>, 0, <<>>)) EXCEPT !.schema = HexStr(SchemaOf(c[3])[2])] @@ [pack |-> c[4]] @@
             (IF c[5] = 0 THEN [enc |-> [salt |-> c[3] % 5]] ELSE [format |-> HexStr(FormatOf(c[5]))])
\* what the file is, what it is asked to be
Wanted(e) == IF e = "notebook" THEN "toc" ELSE "section"
Answer(c) ==
  IF c[5] # 0 THEN [ok |-> FALSE, err |-> "Malformed"]
  ELSE IF SchemaOf(c[3])[1] # Wanted(c[1]) THEN [ok |-> FALSE, err |-> IF c[1] = "notebook" THEN "NotATocFile" ELSE "NotASectionFile"]
  ELSE IF c[1] = "notebook" THEN (IF c[2] = 1 THEN [ok |-> TRUE, v |-> [color |-> <<>>, entries |-> <<>>]] ELSE [ok |-> FALSE])
  ELSE IF c[2] = 0 THEN [ok |-> TRUE, v |-> Expect(SmallSp(1), Fname).v] ELSE [ok |-> FALSE]
VARIABLE n
Init == n = Shard
Next == n + Shards < Min2(Limit, Total) /\ n' = n + Shards
Active == n < Min2(Limit, Total)
Emitted == Active => LET c == Cell5(Idx(n, Total)) IN EmitCase([op |-> "bytes", id |-> <<"kinds", c>>, as |-> c[1], fname |-> Fname, doc |-> DocFor(c), expect |-> Answer(c)])
\* nothing but a file of the right kind is accepted
Sound == Active => LET c == Cell5(Idx(n, Total)) IN Answer(c).ok => c[5] = 0 /\ ((c[1] = "notebook" /\ c[2] = 1 /\ c[3] = 2) \/ (c[1] # "notebook" /\ c[2] = 0 /\ c[3] = 1))
============================================================================
