-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The bytes of a file: numbers, identifiers, stream objects, elements and *)
(* the package (MS-FSSHTTPB, MS-ONESTORE).  A reading operator takes the   *)
(* file B and a position and returns [i |-> the position after what was    *)
(* read, v |-> its value], or Bad.  Package(B) is what a reader that       *)
(* accepts nothing but well-formed files finds in the file (P03, P18).     *)
(*                                                                         *)
(* Identifiers are sequences of 20 bytes: a GUID as stored and a number.   *)
(* Numbers that exceed 2^30 are Huge.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Bad == [i |-> 0, v |-> <<>>]
At(i, v) == [i |-> i, v |-> v]
Huge == -1
Then(r0, F(_, _)) == LET r == r0 IN IF r.i = 0 THEN Bad ELSE F(r.i, r.v)
Get8(B, i) == IF i > Len(B) THEN Bad ELSE At(i + 1, B[i])
Take(B, i, m) == IF m = Huge \/ m > Len(B) - i + 1 THEN Bad ELSE At(i + m, SubSeq(B, i, i + m - 1))
Exactly(B, i, bs) == IF Len(bs) <= Len(B) - i + 1 /\ (\A j \in 1..Len(bs) : B[i + j - 1] = bs[j]) THEN At(i + Len(bs), bs) ELSE Bad

\* little-endian value of bytes, shifted right by k bits
Shifted(bs, k) ==
  LET P(j) == IF bs[j] = 0 THEN 0 ELSE IF 8 * (j - 1) - k >= 30 THEN Huge ELSE
              IF j = 1 THEN bs[1] \div 2^k ELSE IF bs[j] >= 2^(30 - 8 * (j - 1) + k) THEN Huge ELSE bs[j] * 2^(8 * (j - 1) - k)
      S == [j \in 1..Len(bs) |-> P(j)]
  IN IF \E j \in 1..Len(bs) : S[j] = Huge THEN Huge ELSE FoldLeft(LAMBDA a, x : a + x, 0, S)
Num(bs) == Shifted(bs, 0)
Get16(B, i) == Then(Take(B, i, 2), LAMBDA j, b : At(j, b[1] + 256 * b[2]))
Get32(B, i) == Then(Take(B, i, 4), LAMBDA j, b : At(j, Num(b)))

(* Numbers of variable width: the number of trailing zero bits of the first *)
(* byte tells how many bytes follow.                                        *)
LowBit(b) == CHOOSE k \in 1..8 : (b \div 2^(k - 1)) % 2 = 1 /\ (\A q \in 1..(k - 1) : (b \div 2^(q - 1)) % 2 = 0)
Compact(B, i) ==
  IF i > Len(B) THEN Bad
  ELSE IF B[i] = 0 THEN At(i + 1, 0)
  ELSE LET k == LowBit(B[i]) IN
       IF k = 8 THEN Then(Take(B, i + 1, 8), LAMBDA j, b : At(j, Num(b)))
       ELSE Then(Take(B, i, k), LAMBDA j, b : At(j, Shifted(b, k)))

(* Identifiers: the number has 0, 5, 10, 17 or 32 bits.                     *)
Nil == [j \in 1..20 |-> 0]
WithGuid(B, i, n) == Then(Take(B, i, 16), LAMBDA j, g : At(j, g \o n))
Id(B, i) ==
  IF i > Len(B) THEN Bad
  ELSE LET b == B[i] IN
       CASE b = 0 -> At(i + 1, Nil)
         [] b % 8 = 4 -> WithGuid(B, i + 1, <<b \div 8, 0, 0, 0>>)
         [] b % 64 = 32 -> Then(Get8(B, i + 1), LAMBDA j, x : LET v == x * 4 + (b \div 64) IN WithGuid(B, j, <<v % 256, v \div 256, 0, 0>>))
         [] b % 128 = 64 -> Then(Get16(B, i + 1), LAMBDA j, x : LET v == x * 2 + (b \div 128) IN WithGuid(B, j, <<v % 256, (v \div 256) % 256, v \div 65536, 0>>))
         [] b = 128 -> Then(Take(B, i + 1, 4), LAMBDA j, x : WithGuid(B, j, x))
         [] OTHER -> Bad
Guid(B, i) == Take(B, i, 16)
Serial(B, i) == Then(Get8(B, i), LAMBDA j, t : IF t = 0 THEN At(j, [q \in 1..24 |-> 0]) ELSE Take(B, j, 24))
Cell(B, i) == Then(Id(B, i), LAMBDA j, a : Then(Id(B, j), LAMBDA k, b : At(k, <<a, b>>)))
RECURSIVE Times(_, _, _, _, _)
\* n things, read by R
Times(B, i, m, R(_, _), acc) == IF m = Huge THEN Bad ELSE IF m = 0 THEN At(i, acc) ELSE
  LET r == R(B, i) IN IF r.i = 0 THEN Bad ELSE Times(B, r.i, m - 1, R, Append(acc, r.v))
Ids(B, i) == Then(Compact(B, i), LAMBDA j, m : Times(B, j, m, Id, <<>>))
Cells(B, i) == Then(Compact(B, i), LAMBDA j, m : Times(B, j, m, Cell, <<>>))
Blob(B, i) == Then(Compact(B, i), LAMBDA j, m : Take(B, j, m))

(* Stream objects.  The lengths in their headers are informational.         *)
ObjectTypes == {1, 2, 3, 5, 7, 10, 11, 12, 13, 14, 17, 21, 22, 24, 25, 26, 28, 29, 30, 106, 120, 121, 122}
Head16(B, i) == Then(Get16(B, i), LAMBDA j, w : IF w % 4 # 0 \/ ((w \div 8) % 64) \notin ObjectTypes THEN Bad ELSE At(j, (w \div 8) % 64))
Head32(B, i) == Then(Take(B, i, 4), LAMBDA j, b :
  LET ty == (b[1] \div 8) + 32 * b[2] + 8192 * (b[3] % 2) IN
  IF b[1] % 4 # 2 \/ ty \notin ObjectTypes THEN Bad
  ELSE IF b[3] >= 254 /\ b[4] = 255 THEN Then(Compact(B, j), LAMBDA k, x : At(k, ty)) ELSE At(j, ty))
HeadAny(B, i) == IF i > Len(B) THEN Bad ELSE CASE B[i] % 4 = 0 -> Head16(B, i) [] B[i] % 4 = 2 -> Head32(B, i) [] OTHER -> Bad
Only(r0, ty) == LET r == r0 IN IF r.i # 0 /\ r.v = ty THEN r ELSE Bad
Start16(B, i, ty) == Only(Head16(B, i), ty)
Start32(B, i, ty) == Only(Head32(B, i), ty)
Start(B, i, ty) == Only(HeadAny(B, i), ty)
End8(B, i, ty) == Exactly(B, i, <<4 * ty + 1>>)
End16(B, i, ty) == Exactly(B, i, <<(4 * ty + 3) % 256, (4 * ty + 3) \div 256>>)
\* things read by R until the mark of the end of ty; R returns a sequence to append
RECURSIVE Until(_, _, _, _, _, _)
Until(B, i, EndMark(_, _, _), ty, R(_, _), acc) ==
  LET e == EndMark(B, i, ty) IN
  IF e.i # 0 THEN At(e.i, acc) ELSE IF i > Len(B) THEN Bad
  ELSE LET r == R(B, i) IN IF r.i = 0 THEN Bad ELSE Until(B, r.i, EndMark, ty, R, Append(acc, r.v))
ELEMENT == 1
Fields(B, i, ty, Rs) == \* ids, numbers, ... one after the other
  FoldLeft(LAMBDA a, q : IF a.i = 0 THEN Bad ELSE
     Then(CASE q = "id" -> Id(B, a.i) [] q = "num" -> Compact(B, a.i) [] q = "serial" -> Serial(B, a.i) [] q = "cell" -> Cell(B, a.i)
            [] q = "ids" -> Ids(B, a.i) [] q = "cells" -> Cells(B, a.i) [] OTHER -> Blob(B, a.i), LAMBDA j, v : At(j, Append(a.v, v))), At(i, <<ty>>), Rs)
(* Elements *)
IndexEntry(B, i) == Then(Head16(B, i), LAMBDA j, ty :
  CASE ty = 17 -> Fields(B, j, ty, <<"id", "serial">>)
    [] ty = 14 -> Fields(B, j, ty, <<"cell", "id", "serial">>)
    [] ty = 13 -> Fields(B, j, ty, <<"id", "id", "serial">>) [] OTHER -> Bad)
StorageIndex(B, i) == Until(B, i, End8, ELEMENT, IndexEntry, <<>>)
StorageRoot(B, i) == Then(Start16(B, i, 7), LAMBDA j, ty : Fields(B, j, ty, <<"id", "cell">>))
StorageManifest(B, i) == Then(Start16(B, i, 12), LAMBDA j, ty : Then(Guid(B, j), LAMBDA k, g :
  Then(Until(B, k, End8, ELEMENT, StorageRoot, <<>>), LAMBDA m, rs : At(m, [schema |-> g, roots |-> rs]))))
CellManifest(B, i) == Then(Start16(B, i, 11), LAMBDA j, ty : Then(Id(B, j), LAMBDA k, x : Then(End8(B, k, ELEMENT), LAMBDA m, e : At(m, x))))
RevisionEntry(B, i) == Then(Head16(B, i), LAMBDA j, ty : CASE ty = 10 -> Fields(B, j, ty, <<"id", "id">>) [] ty = 25 -> Fields(B, j, ty, <<"id">>) [] OTHER -> Bad)
RevisionManifest(B, i) == Then(Start16(B, i, 26), LAMBDA j, ty : Then(Id(B, j), LAMBDA k, x : Then(Id(B, k), LAMBDA m, y :
  Then(Until(B, m, End8, ELEMENT, RevisionEntry, <<>>), LAMBDA q, es : At(q, [rid |-> x, base |-> y, entries |-> es])))))
Declaration(B, i) == Then(HeadAny(B, i), LAMBDA j, ty :
  CASE ty = 24 -> Fields(B, j, ty, <<"id", "num", "num", "num", "num">>)
    [] ty = 5 -> Then(Fields(B, j, ty, <<"id", "id", "num", "num", "num">>), LAMBDA k, v : At(k, <<ty, v[2], v[4]>>)) [] OTHER -> Bad)
Metadatum(B, i) == Then(Start32(B, i, 120), LAMBDA j, ty : Then(Compact(B, j), LAMBDA k, f : IF f \in 0..4 THEN At(k, f) ELSE Bad))
GroupItem(B, i) == Then(HeadAny(B, i), LAMBDA j, ty :
  CASE ty = 3 -> Fields(B, j, ty, <<"ids", "cells", "num">>) [] ty = 22 -> Fields(B, j, ty, <<"ids", "cells", "blob">>)
    [] ty = 28 -> Fields(B, j, ty, <<"ids", "cells", "id">>) [] OTHER -> Bad)
GroupData(B, i) == Then(HeadAny(B, i), LAMBDA j, ty :
  CASE ty = 30 -> Until(B, j, End8, 30, GroupItem, <<>>)
    [] ty = 121 -> Then(Until(B, j, End16, 121, Metadatum, <<>>), LAMBDA k, x : Then(Start(B, k, 30), LAMBDA m, y : Until(B, m, End8, 30, GroupItem, <<>>)))
    [] OTHER -> Bad)
ObjectGroup(B, i) == Then(Start(B, i, 29), LAMBDA j, ty : Then(Until(B, j, End8, 29, Declaration, <<>>), LAMBDA k, ds :
  Then(GroupData(B, k), LAMBDA m, xs : Then(End8(B, m, ELEMENT), LAMBDA q, e : At(q, [decls |-> ds, data |-> xs])))))
Fragment(B, i) == Then(Start(B, i, 106), LAMBDA j, ty : Then(Fields(B, j, ty, <<"id", "num", "num", "num">>), LAMBDA k, v :
  Then(Take(B, k, v[3]), LAMBDA m, x : Then(End8(B, m, ELEMENT), LAMBDA q, e : At(q, <<>>)))))
DataBlob(B, i) == Then(Start(B, i, 2), LAMBDA j, ty : Then(Blob(B, j), LAMBDA k, v : Then(End8(B, k, ELEMENT), LAMBDA q, e : At(q, v))))
Element(B, i) == Then(Start16(B, i, ELEMENT), LAMBDA j, h : Then(Id(B, j), LAMBDA k, x : Then(Serial(B, k), LAMBDA m, s : Then(Compact(B, m), LAMBDA q, ty :
  Then(CASE ty = 1 -> StorageIndex(B, q) [] ty = 2 -> StorageManifest(B, q) [] ty = 3 -> CellManifest(B, q) [] ty = 4 -> RevisionManifest(B, q)
         [] ty = 5 -> ObjectGroup(B, q) [] ty = 6 -> Fragment(B, q) [] ty = 10 -> DataBlob(B, q) [] OTHER -> Bad,
       LAMBDA z, v : At(z, [ty |-> ty, id |-> x, v |-> v]))))))

(* The package *)
HexGuid(a, b, c, d) == <<a[4], a[3], a[2], a[1], b[2], b[1], c[2], c[1]>> \o d
RevisionFormat == HexGuid(<<16, 154, 221, 63>>, <<145, 27>>, <<73, 245>>, <<165, 208, 23, 145, 237, 200, 174, 216>>)
PackageFormat == HexGuid(<<99, 141, 233, 47>>, <<166, 212>>, <<75, 193>>, <<154, 54, 179, 252, 37, 17, 165, 183>>)
Packaged(B, i) == Then(Exactly(B, i, <<0, 0, 0, 0>>), LAMBDA j, p : Then(Start32(B, j, 122), LAMBDA k, h : Then(Id(B, k), LAMBDA m, si : Then(Guid(B, m), LAMBDA q, sc :
  Then(Start16(B, q, 21), LAMBDA r, h2 : Then(Exactly(B, r, <<0>>), LAMBDA s, z : Then(Until(B, s, End8, 21, Element, <<>>), LAMBDA t, es :
  Then(End16(B, t, 122), LAMBDA u, e : At(u, [index |-> si, elements |-> es])))))))))
Version(b) == b = <<42, 0, 0, 0>> \/ b = <<27, 0, 0, 0>>
\* the package follows the transaction log of the outer file and its own header
Wrapped(B) == Then(Take(B, 65, 108), LAMBDA i, h :
  IF \E k \in 0..3 : ~Version(SubSeq(h, 4 * k + 1, 4 * k + 4)) THEN Bad
  ELSE LET stp == Num(SubSeq(h, 97, 104)) cb == Num(SubSeq(h, 105, 108)) IN
       IF stp = Huge \/ cb = Huge \/ stp + cb < 172 \/ stp + cb > Len(B) THEN Bad
       ELSE Then(Take(B, stp + cb + 1, 64), LAMBDA j, h2 : Packaged(B, j)))
Package(B) ==
  IF Len(B) < 64 THEN Bad
  ELSE LET format == SubSeq(B, 49, 64) IN
       CASE format = PackageFormat -> Packaged(B, 65)
         [] format = RevisionFormat -> IF \A j \in 33..48 : B[j] = 0 THEN Wrapped(B) ELSE Packaged(B, 65)
         [] OTHER -> Bad
=============================================================================
