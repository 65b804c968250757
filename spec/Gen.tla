-------------------------------- MODULE Gen --------------------------------
(* Generation of documents: every operator is a function of a seed.         *)
EXTENDS Content, Prng

PB(n, b) == [n |-> n, t |-> 2, v |-> <<IF b THEN 1 ELSE 0>>]
PI(n, v) == [n |-> n, t |-> CASE Len(v) = 1 -> 3 [] Len(v) = 2 -> 4 [] Len(v) = 4 -> 5 [] OTHER -> 6, v |-> v]
PV(n, v) == [n |-> n, t |-> 7, v |-> v]
PR(n, x) == [n |-> n, t |-> 8, r |-> <<x>>]
PRs(n, xs) == [n |-> n, t |-> 9, r |-> xs]
PSp(n, xs) == [n |-> n, t |-> 11, r |-> xs]
PSets(n, ss) == [n |-> n, t |-> 16, s |-> ss]
UnitBytes(u) == [i \in 1..(2 * Len(u)) |-> IF i % 2 = 1 THEN u[(i + 1) \div 2] % 256 ELSE u[i \div 2] \div 256]
PS(n, u) == PV(n, UnitBytes(u))
Obj(k, ps) == [k |-> k, p |-> ps, b |-> <<>>]
ObjB(k, ps, b) == [k |-> k, p |-> ps, b |-> b]
None == [x \in {} |-> 0]
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>

\* MS-ISF encoding of magnitude m < 2^29 with sign
RECURSIVE MbEnc(_)
MbEnc(x) == IF x < 128 THEN <<x>> ELSE <<128 + (x % 128)>> \o MbEnc(x \div 128)
MbInt(neg, m) == MbEnc(2 * m + (IF neg THEN 1 ELSE 0))

--------------------------------------------------------------------------
Chars == <<65, 122, 32, 223, 8364, 20013, 57344, 65535, 55295, 48, 46, 10>>
RECURSIVE RandStr(_, _)
RandStr(s, n) == IF n = 0 THEN <<>>
  ELSE (IF Coin(s, 3, 1, 7) THEN <<55296 + Below(Sub(s, 4), 1024), 56320 + Below(Sub(s, 5), 1024)>> ELSE <<Pick(s, 1, Chars)>>) \o RandStr(Sub(s, 2), n - 1)
Strs == << <<>>, <<65>>, <<46, 111, 110, 101>>, <<65, 46, 111, 110, 101>>, <<65, 0, 66>>, <<0, 65>>, <<55357, 56832>>, <<256>>, <<1, 65535>> >>
RStr(s) == IF Coin(s, 1, 1, 3) THEN Pick(s, 2, Strs) ELSE RandStr(Sub(s, 3), 1 + Below(Sub(s, 4), 8))
RBytes(s, n) == [i \in 1..n |-> Below(Sub(s, i), 256)]
F32s == << <<0,0,0,0>>, <<0,0,0,128>>, <<0,0,128,63>>, <<0,0,32,192>>, <<255,255,127,127>>, <<0,0,128,127>>, <<0,0,128,255>>, <<1,0,0,0>>, <<205,204,204,61>> >>
RF32(s) == IF Coin(s, 1, 1, 2) THEN Pick(s, 2, F32s) ELSE LET b == RBytes(Sub(s, 3), 4) IN <<b[1], b[2], b[3], b[4] % 127>>
U32s == << <<0,0,0,0>>, <<1,0,0,0>>, <<255,255,255,255>>, <<255,255,255,127>>, <<0,0,0,128>>, <<0,1,0,0>>, <<7,4,0,0>> >>
RU32(s) == IF Coin(s, 1, 1, 2) THEN Pick(s, 2, U32s) ELSE RBytes(Sub(s, 3), 4)
RU16(s) == IF Coin(s, 1, 1, 2) THEN Pick(s, 2, << <<0,0>>, <<1,0>>, <<255,255>>, <<0,1>>, <<255,127>>, <<0,128>>, <<9,4>> >>) ELSE RBytes(Sub(s, 3), 2)
RU8(s) == Pick(s, 1, <<0, 1, 2, 3, 77, 127, 128, 255, Below(Sub(s, 2), 256)>>)
Charset(s) == Pick(s, 1, <<0, 1, 2, 77, 128, 129, 130, 134, 136, 161, 162, 163, 177, 178, 186, 204, 222, 238, 255>>)

\* A property n holding a value of type ty
Val(n, ty, s) ==
  CASE ty = "bool" -> PB(n, Coin(s, 1, 2, 3))
    [] ty = "u8" -> PI(n, <<RU8(s)>>)
    [] ty = "u16" -> PI(n, RU16(s))
    [] ty = "u32" -> PI(n, RU32(s))
    [] ty = "f32" -> PI(n, RF32(s))
    [] ty = "u64" -> PI(n, RBytes(s, 8))
    [] ty \in {"bytes", "tail"} -> PV(n, RBytes(s, Below(Sub(s, 50), 9)))
    [] ty = "guid" -> PV(n, RBytes(s, 16))
    [] ty = "str" -> PS(n, RStr(s))
    [] ty = "latin" -> PV(n, RBytes(s, Below(Sub(s, 50), 9)))
    [] ty = "u32s" -> PV(n, RBytes(s, 4 * Below(Sub(s, 50), 4)))
    [] ty = "widths" -> PV(n, <<3>> \o Concat([i \in 1..Below(Sub(s, 50), 4) |-> RF32(Sub(s, i))]))
    [] ty = "lfmt" -> PS(n, <<3>> \o Pick(s, 1, << <<>>, <<65533, 4, 46>>, <<55357, 56832>>, <<55357>>, <<56832, 65>>, <<0, 1>>, <<65535, 41>> >>))
    [] ty = "indents" -> LET m == Below(Sub(s, 50), 4) IN PV(n, <<m, 0, Below(Sub(s, 51), 256), 0>> \o Concat([i \in 1..m |-> RF32(Sub(s, i))]))
    [] ty = "la" -> PI(n, <<Below(Sub(s, 1), 6) + 8 * Below(Sub(s, 2), 32), Below(Sub(s, 3), 256), Below(Sub(s, 4), 256), IF Coin(s, 5, 1, 5) THEN 128 ELSE Below(Sub(s, 6), 128)>>)
    [] ty = "color" -> PI(n, RBytes(s, 4))
    [] ty = "cref" -> PI(n, <<Below(Sub(s, 1), 256), Below(Sub(s, 2), 256), Below(Sub(s, 3), 256), Pick(s, 4, <<0, 0, 255>>)>>)
    [] ty = "ftype" -> PI(n, Pick(s, 1, << <<1,0,0,0>>, <<2,0,0,0>> >>))
    [] ty = "palign" -> PI(n, <<Pick(s, 1, <<0, 1, 2, 3, 255>>)>>)
    [] ty = "charset" -> PI(n, <<Charset(s)>>)
    [] ty = "shape" -> PI(n, <<Below(Sub(s, 1), 144), 0>>)
    [] ty = "action" -> PI(n, Pick(s, 1, << <<0,0>>, <<99,0>>, <<100,0>>, <<101,0>>, <<102,0>>, <<103,0>>, <<104,0>>, <<105,0>>, <<106,0>>, <<255,255>>, <<5,1>>, <<42,0>> >>))
    [] ty = "status" -> PI(n, <<Below(Sub(s, 1), 8) + 8 * Below(Sub(s, 2), 32), Below(Sub(s, 3), 256)>>)
    [] ty = "tagbits" -> PI(n, RBytes(s, 4))
    [] ty = "bias" -> PI(n, <<Below(Sub(s, 1), 3)>>)
    [] ty = "mtype" -> PI(n, IF Coin(s, 1, 1, 9) THEN <<0, 0, 0, 144>> ELSE <<Pick(s, 2, <<0, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33>>), 0, 0, 0>>)
    [] ty = "mchar" -> PI(n, Pick(s, 1, << <<65,0>>, <<0,0>>, <<255,255>>, <<255,215>>, <<0,224>>, <<12,34>> >>))
    [] OTHER -> Assert(FALSE, ty)

IsRefType(ty) == ty \in {"oid", "oids", "spaces", "sets", "path", "dims"}
\* Attributes of a kind: all mandatory ones, the others with probability num/den
Attrs(k, s, num, den) ==
  LET fs == SelectSeq(Flds[k], LAMBDA f : ~IsRefType(f[2]))
      q == [i \in 1..Len(fs) |-> IF fs[i][3] = 1 \/ Coin(s, 100 + i, num, den) THEN <<Val(fs[i][1], fs[i][2], Sub(s, 200 + i))>> ELSE <<>>]
  IN Concat(q)
\* Properties unknown to the API, of any type, to be passed over
Noise(s, k) ==
  LET n == Pick(s, 1, <<"0x00003A01", "0x00003A02", "0x00001FFF">>) ty == Pick(s, 2, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 11, 12, 13, 16, 16, 17>>)
      refs == SubSeq(<<"zz1", "zz2", "zz1">>, 1, Below(Sub(s, 3), 4))
      inner == << [n |-> "0x00003B01", t |-> 9, r |-> refs], [n |-> "0x00003B02", t |-> 8, r |-> <<"zz3">>], [n |-> "0x00003B03", t |-> 11, r |-> refs] >>
  IN CASE ty = 1 -> [n |-> n, t |-> 1]
       [] ty = 2 -> PB(n, TRUE)
       [] ty \in 3..6 -> [n |-> n, t |-> ty, v |-> RBytes(s, CASE ty = 3 -> 1 [] ty = 4 -> 2 [] ty = 5 -> 4 [] ty = 6 -> 8)]
       [] ty = 7 -> PV(n, RBytes(s, Below(Sub(s, 4), 12)))
       [] ty = 8 -> PR(n, "zz1") [] ty = 9 -> PRs(n, refs)
       [] ty = 10 -> [n |-> n, t |-> 10, r |-> <<"zs1">>] [] ty = 11 -> PSp(n, refs)
       [] ty = 12 -> [n |-> n, t |-> 12, r |-> <<"zc1">>] [] ty = 13 -> [n |-> n, t |-> 13, r |-> refs]
       [] ty = 16 -> PSets(n, [i \in 1..Below(Sub(s, 5), 3) |-> SubSeq(inner, 1, Below(Sub(s, 5 + i), 4))])
       [] ty = 17 -> [n |-> n, t |-> 17, s |-> <<SubSeq(inner, 1, Below(Sub(s, 9), 4))>>]
WithNoise(s, ps) == IF Coin(s, 1, 1, 4) THEN ps \o <<Noise(Sub(s, 2), 0)>> ELSE ps
Mix(s, ps) == Shuffle(Sub(s, 1), WithNoise(Sub(s, 2), ps))

--------------------------------------------------------------------------
\* Sub-documents are functions oid -> object.
RECURSIVE Union(_)
Union(fs) == IF fs = <<>> THEN None ELSE Head(fs) @@ Union(Tail(fs))
Ids(id, tag, n) == [i \in 1..n |-> id \o tag \o ToString(i)]
OneIf(b, x) == IF b THEN <<x>> ELSE <<>>

TagDefs(s, id) == [x \in {id \o "d" \o ToString(i) : i \in 1..3} |->
   LET i == CHOOSE i \in 1..3 : x = id \o "d" \o ToString(i) IN
   Obj("NoteTagSharedDefinitionContainer", Mix(Sub(s, i), Attrs("NoteTagSharedDefinitionContainer", Sub(s, 10 + i), 1, 2)))]
TagSet(s, d) == Mix(Sub(s, 1), Attrs("NoteTag", Sub(s, 2), 1, 2) \o OneIf(d # "", PR("NoteTagDefinitionOid", d)))
\* n tags whose definitions are drawn from defs
TagProp(s, n, defs) ==
  IF n = 0 THEN <<>> ELSE <<PSets("NoteTags", [i \in 1..n |-> TagSet(Sub(s, i), IF Coin(s, 40 + i, 3, 4) THEN Pick(s, 20 + i, defs) ELSE "")])>>
Tags(s, defs) == TagProp(s, Pick(s, 9, <<0, 0, 1, 2, 3>>), defs)

StyleObj(s, more) == Obj("ParagraphStyleObject", Mix(s, Attrs("ParagraphStyleObject", s, 1, 3) \o more))
NoFlags(ps) == SelectSeq(ps, LAMBDA p : p.n \notin {"TextRunIsEmbeddedObject", "EmbeddedObjectType", "MathFormatting"})
RunStyleObj(s, kind) == LET base == NoFlags(Attrs("ParagraphStyleObject", s, 1, 4)) IN
  Obj("ParagraphStyleObject", Mix(s, base \o
     CASE kind = "plain" -> OneIf(Coin(s, 3, 1, 3), PB("TextRunIsEmbeddedObject", FALSE)) \o OneIf(Coin(s, 4, 1, 3), PB("MathFormatting", FALSE))
       [] kind = "math" -> <<PB("MathFormatting", TRUE)>>
       [] kind = "ink" -> <<PB("TextRunIsEmbeddedObject", TRUE)>>
       [] kind = "space" -> <<PB("TextRunIsEmbeddedObject", TRUE), PI("EmbeddedObjectType", INKSPACE)>>
       [] kind = "break" -> <<PB("TextRunIsEmbeddedObject", TRUE), PI("EmbeddedObjectType", INKBREAK)>>))
RunSet(s, kind) == Mix(s,
     CASE kind = "plain" -> <<>>
       [] kind = "math" -> Attrs("MathInline", s, 1, 2)
       [] kind = "ink" -> Attrs("EmbeddedInk", s, 4, 5)
       [] kind = "space" -> <<Val("EmbeddedInkSpaceWidth", "f32", Sub(s, 5)), Val("EmbeddedInkSpaceHeight", "f32", Sub(s, 6))>>
       [] kind = "break" -> <<>>)

OtherDim(s) == RBytes(s, 16)
DimBytes(g, s) == g \o RBytes(s, 16)
Coord(s) == LET m == Pick(s, 1, <<0, 1, 2, 63, 64, 127, 128, 8191, 8192, 100000, 16777217, 500000000>>) IN
  CASE Coin(s, 2, 1, 12) -> <<255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>          \* the smallest 64-bit magnitude with sign
    [] Coin(s, 3, 1, 12) -> <<128, 128, 128, 128, 128, 128, 128, 128, 64>>
    [] Coin(s, 4, 1, 12) -> <<129, 128, 0>>                                              \* not the shortest form
    [] OTHER -> MbInt(Coin(s, 5, 1, 2), m)
\* An ink data node with its strokes: n strokes, dimensions in any order
GenInkData(s, id, n) ==
  LET strokes == Ids(id, "k", n) IN
  (id :> Obj("InkDataNode", Mix(Sub(s, 1), <<PRs("InkStrokes", strokes)>> \o
      OneIf(Coin(s, 2, 1, 2), PV("InkBoundingBox", Concat([i \in 1..4 |-> RU32(Sub(s, 2 + i))])))))) @@
  Union([i \in 1..n |->
    LET q == Sub(s, 20 + i) nd == 2 + Below(Sub(q, 1), 3) np == Below(Sub(q, 2), 5)
        dims == Shuffle(Sub(q, 3), <<DimBytes(XDim, Sub(q, 4)), DimBytes(YDim, Sub(q, 5))>> \o [j \in 1..(nd - 2) |-> DimBytes(OtherDim(Sub(q, 5 + j)), Sub(q, 6 + j))])
        path == MbInt(FALSE, nd * np) \o Concat([j \in 1..(nd * np) |-> Coord(Sub(q, 50 + j))])
    IN (strokes[i] :> Obj("InkStrokeNode", Mix(Sub(q, 7), Attrs("InkStrokeNode", Sub(q, 8), 1, 3) \o <<PV("InkPath", path), PR("InkStrokeProperties", strokes[i] \o "p")>>))) @@
       (strokes[i] \o "p" :> Obj("StrokePropertiesNode", Mix(Sub(q, 9), Attrs("StrokePropertiesNode", Sub(q, 10), 2, 3) \o <<PV("InkDimensions", Concat(dims))>>)))])
GenInk(s, id) ==
  LET has == Coin(s, 1, 5, 6) IN
  (id :> Obj("InkContainer", Mix(Sub(s, 2), Attrs("InkContainer", Sub(s, 3), 2, 3) \o OneIf(has, PR("InkData", id \o "i"))))) @@
  (IF has THEN GenInkData(Sub(s, 4), id \o "i", Below(Sub(s, 5), 4)) ELSE None)

\* A paragraph with the given kinds of run
GenTextRuns(s, id, defs, kinds) ==
  LET n == Len(kinds) sids == Ids(id, "r", n)
      ni == Cardinality({i \in 1..n : kinds[i] = "ink"}) inks == Ids(id, "j", ni)
      data == OneIf(\E i \in 1..n : kinds[i] # "plain", PSets("TextRunData", [i \in 1..n |-> RunSet(Sub(s, 100 + i), kinds[i])]))
  IN (id :> Obj("RichTextNode", Mix(Sub(s, 2),
        SelectSeq(Attrs("RichTextNode", Sub(s, 3), 1, 2), LAMBDA p : p.n # "TextRunIndex") \o <<PR("ParagraphStyle", id \o "s")>> \o
        OneIf(n > 0, PRs("TextRunFormatting", sids)) \o
        OneIf(n > 1, PV("TextRunIndex", Concat([i \in 1..(n - 1) |-> RU32(Sub(s, 60 + i))]))) \o
        OneIf(ni > 0, PRs("TextRunDataObject", inks)) \o data \o Tags(Sub(s, 4), defs)))) @@
     (id \o "s" :> StyleObj(Sub(s, 5), <<>>)) @@
     Union([i \in 1..n |-> (sids[i] :> RunStyleObj(Sub(s, 30 + i), kinds[i]))]) @@
     Union([i \in 1..ni |-> GenInkData(Sub(s, 80 + i), inks[i], 1 + Below(Sub(s, 90 + i), 2))])
RunKinds(s) == LET n == Pick(s, 1, <<0, 0, 1, 2, 3, 5>>) mode == Below(Sub(s, 2), 4) IN
  [i \in 1..n |-> CASE mode <= 1 -> "plain" [] mode = 2 -> Pick(s, 10 + i, <<"plain", "math">>) [] OTHER -> Pick(s, 10 + i, <<"plain", "ink", "ink", "space", "break", "math">>)]
GenText(s, id, defs) == GenTextRuns(s, id, defs, RunKinds(Sub(s, 1)))

GenImage(s, id, defs) ==
  LET c == Coin(s, 1, 2, 3) n == Pick(s, 2, <<0, 0, 1, 2>>) fr == Ids(id, "f", n) IN
  (id :> Obj("ImageNode", Mix(Sub(s, 3), Attrs("ImageNode", Sub(s, 4), 1, 2) \o OneIf(c, PR("PictureContainer", id \o "c")) \o
        OneIf(n > 0, PRs("ContentChildNodes", fr)) \o Tags(Sub(s, 5), defs)))) @@
  (IF c THEN id \o "c" :> ObjB(Pick(s, 6, <<"PictureContainer", "XpsContainer">>), Mix(Sub(s, 7), Attrs("PictureContainer", Sub(s, 8), 1, 2)), <<id \o "b">>) ELSE None) @@
  Union([i \in 1..n |-> (fr[i] :> Obj("IFrameNode", Mix(Sub(s, 9 + i), Attrs("IFrameNode", Sub(s, 19 + i), 1, 2))))])
GenFile(s, id, defs) ==
  (id :> Obj("EmbeddedFileNode", Mix(Sub(s, 1), Attrs("EmbeddedFileNode", Sub(s, 2), 1, 2) \o <<PR("EmbeddedFileContainer", id \o "c")>> \o
        OneIf(Coin(s, 3, 1, 3), PR("PictureContainer", id \o "c")) \o Tags(Sub(s, 4), defs)))) @@
  (id \o "c" :> ObjB("EmbeddedFileContainer", Mix(Sub(s, 5), <<>>), <<id \o "b">>))
Author(id) == (id \o "a" :> Obj("AuthorContainer", <<PS("Author", <<65>>)>>))
ElementRefs(id) == <<PR("AuthorOriginal", id \o "a"), PR("AuthorMostRecent", id \o "a")>>
\* recognised kinds with no representation as content
Odd(s, id) == (id :> Obj(Pick(s, 1, <<"TitleNode", "PageNode", "RevisionMetadata", "AuthorContainer", "NumberListNode">>), <<>>))

RECURSIVE GenItem(_, _, _, _), GenElement(_, _, _, _), GenTable(_, _, _, _)
GenContent(s, id, defs, d) ==
  LET k == Below(Sub(s, 1), 16) q == Sub(s, 2) IN
  CASE k <= 6 -> GenText(q, id, defs) [] k \in 7..9 -> GenImage(q, id, defs) [] k = 10 -> GenFile(q, id, defs) [] k \in 11..12 -> GenInk(q, id)
    [] k \in 13..14 -> IF d > 0 THEN GenTable(q, id, defs, d - 1) ELSE GenText(q, id, defs) [] OTHER -> Odd(q, id)
GenElement(s, id, defs, d) ==
  LET nc == IF d > 0 THEN Pick(s, 1, <<0, 0, 1, 2>>) ELSE 0 nk == Pick(s, 2, <<0, 1, 1, 1, 2, 3>>) nl == Pick(s, 3, <<0, 0, 1, 2>>)
      cs == Ids(id, "e", nc) ks == Ids(id, "c", nk) ls == Ids(id, "l", nl)
      \* the same content may be listed twice
      ksr == IF nk > 0 /\ Coin(s, 8, 1, 9) THEN ks \o <<ks[1]>> ELSE ks
  IN (id :> Obj("OutlineElementNode", Mix(Sub(s, 4), Attrs("OutlineElementNode", Sub(s, 5), 1, 2) \o ElementRefs(id) \o
        OneIf(nc > 0 \/ Coin(s, 31, 1, 5), PRs("ElementChildNodes", cs)) \o OneIf(nk > 0, PRs("ContentChildNodes", ksr)) \o OneIf(nl > 0, PRs("ListNodes", ls))))) @@
     Author(id) @@
     Union([i \in 1..nc |-> GenItem(Sub(s, 10 + i), cs[i], defs, d - 1)]) @@
     Union([i \in 1..nk |-> GenContent(Sub(s, 20 + i), ks[i], defs, d)]) @@
     Union([i \in 1..nl |-> (ls[i] :> Obj("NumberListNode", Mix(Sub(s, 40 + i), Attrs("NumberListNode", Sub(s, 50 + i), 1, 2))))])
GenItem(s, id, defs, d) ==
  IF d > 0 /\ Coin(s, 1, 1, 4)
  THEN LET n == Below(Sub(s, 2), 3) cs == Ids(id, "g", n) IN
       (id :> Obj("OutlineGroup", Mix(Sub(s, 3), Attrs("OutlineGroup", Sub(s, 4), 1, 2) \o OneIf(n > 0, PRs("ElementChildNodes", cs))))) @@
       Union([i \in 1..n |-> GenItem(Sub(s, 10 + i), cs[i], defs, d - 1)])
  ELSE GenElement(s, id, defs, d)
GenTable(s, id, defs, d) ==
  LET nr == Below(Sub(s, 1), 3) rs == Ids(id, "w", nr) IN
  (id :> Obj("TableNode", Mix(Sub(s, 2), Attrs("TableNode", Sub(s, 3), 1, 2) \o <<PRs("ElementChildNodes", rs)>> \o Tags(Sub(s, 4), defs)))) @@
  Union([i \in 1..nr |->
    LET q == Sub(s, 10 + i) nc == Below(Sub(q, 1), 3) cs == Ids(rs[i], "x", nc) IN
    (rs[i] :> Obj("TableRowNode", Mix(Sub(q, 2), Attrs("TableRowNode", Sub(q, 3), 1, 2) \o <<PRs("ElementChildNodes", cs)>>))) @@
    Union([j \in 1..nc |->
      LET z == Sub(q, 10 + j) ne == Below(Sub(z, 1), 2) es == Ids(cs[j], "y", ne) IN
      (cs[j] :> Obj("TableCellNode", Mix(Sub(z, 2), Attrs("TableCellNode", Sub(z, 3), 1, 2) \o <<PRs("ElementChildNodes", es)>>))) @@
      Union([m \in 1..ne |-> GenElement(Sub(z, 10 + m), es[m], defs, d)])])])
GenOutline(s, id, defs, d) ==
  LET n == Pick(s, 1, <<0, 1, 1, 2, 3>>) cs == Ids(id, "o", n) IN
  (id :> Obj("OutlineNode", Mix(Sub(s, 2), Attrs("OutlineNode", Sub(s, 3), 1, 2) \o OneIf(n > 0, PRs("ElementChildNodes", cs))))) @@
  Union([i \in 1..n |-> GenItem(Sub(s, 10 + i), cs[i], defs, d)])
GenPageContent(s, id, defs, d) ==
  LET k == Below(Sub(s, 1), 10) q == Sub(s, 2) IN
  CASE k <= 4 -> GenOutline(q, id, defs, d) [] k \in 5..6 -> GenImage(q, id, defs) [] k = 7 -> GenFile(q, id, defs) [] k = 8 -> GenInk(q, id) [] OTHER -> Odd(q, id)
DefNames(id) == Ids(id, "d", 3)
PageRefs(contents, title) == OneIf(contents # <<>>, PRs("ElementChildNodes", contents)) \o OneIf(title # <<>>, PRs("StructureElementChildNodes", title))
\* A page space from a sequence of content generators is assembled by Page.
Page(s, id, contents, objs, title) ==
  [roots |-> [content |-> id \o "M", metadata |-> id \o "N"],
   objs |->
    (id \o "M" :> Obj("PageManifestNode", Mix(Sub(s, 1), <<PRs("ContentChildNodes", <<id \o "P">>)>>))) @@
    (id \o "N" :> Obj("PageMetadata", Mix(Sub(s, 2), Attrs("PageMetadata", Sub(s, 3), 1, 2)))) @@
    (id \o "P" :> Obj("PageNode", Mix(Sub(s, 4), Attrs("PageNode", Sub(s, 5), 1, 2) \o PageRefs(contents, title)))) @@ objs]
GenTitle(s, id, defs, d) ==
  LET n == Pick(s, 1, <<0, 1, 1, 2>>) cs == Ids(id, "t", n) IN
  (id :> Obj("TitleNode", Mix(Sub(s, 2), Attrs("TitleNode", Sub(s, 3), 1, 2) \o <<PRs("ElementChildNodes", cs)>>))) @@
  Union([i \in 1..n |-> GenOutline(Sub(s, 10 + i), cs[i], defs, d)])
GenPage(s, id, d) ==
  LET n == Pick(s, 1, <<0, 1, 2, 3>>) cs == Ids(id, "q", n) defs == DefNames(id) t == Coin(s, 2, 2, 3) IN
  Page(Sub(s, 3), id, cs,
    TagDefs(Sub(s, 4), id) @@ (IF t THEN GenTitle(Sub(s, 5), id \o "T", defs, 1) ELSE None) @@
    Union([i \in 1..n |-> GenPageContent(Sub(s, 10 + i), cs[i], defs, d)]), OneIf(t, id \o "T"))

\* The root space of a section with the given series of pages
Root(s, series) ==
  LET ss == Ids("S", "s", Len(series)) IN
  [roots |-> [content |-> "SN", metadata |-> "SM"],
   objs |->
    ("SN" :> Obj("SectionNode", Mix(Sub(s, 1), Attrs("SectionNode", Sub(s, 2), 1, 2) \o OneIf(series # <<>>, PRs("ElementChildNodes", ss))))) @@
    ("SM" :> Obj("SectionMetadata", Mix(Sub(s, 3), Attrs("SectionMetadata", Sub(s, 4), 1, 2)))) @@
    Union([i \in 1..Len(series) |-> (ss[i] :> Obj("PageSeriesNode", Mix(Sub(s, 10 + i),
        Attrs("PageSeriesNode", Sub(s, 20 + i), 1, 2) \o OneIf(series[i] # <<>>, PSp("ChildGraphSpaceElementNodes", series[i])) \o
        OneIf(Coin(s, 30 + i, 1, 3), PRs("MetaDataObjectsAboveGraphSpace", <<"SM">>)))))])]

Markers == << <<>>, <<0>>, <<5, 22, 4>>, <<100, 16, 12, 0, 125, 0, 84, 65>>, <<1, 2, 3, 121, 85>> >>
BlobSpec(s) == CASE Coin(s, 1, 1, 2) -> [b |-> Pick(s, 2, Markers)] [] Coin(s, 3, 1, 12) -> [n |-> 40000, s |-> Below(Sub(s, 4), 1000)]
                 [] OTHER -> [n |-> Below(Sub(s, 5), 300), s |-> Below(Sub(s, 6), 1000)]
BlobNames(Sp) == UNION {UNION {ToSet(Sp[x].objs[o].b) : o \in DOMAIN Sp[x].objs} : x \in DOMAIN Sp}
RECURSIVE BlobMap(_, _, _)
BlobMap(s, names, i) == IF names = <<>> THEN None ELSE (Head(names) :> BlobSpec(Sub(s, i))) @@ BlobMap(s, Tail(names), i + 1)
\* The file of a section whose spaces are Sp (with one revision each) and whose root space is Sp.R
Doc(s, Sp) ==
  [schema |-> "section", root |-> "R",
   spaces |-> [x \in DOMAIN Sp |-> [revs |-> <<[roots |-> Sp[x].roots, objs |-> Sp[x].objs]>>]],
   blobs |-> BlobMap(s, SetToSeq(BlobNames(Sp)), 1)]
Expect(Sp, fname) == SectionExpect(Sp["R"], Sp, fname)
\* a one-page section around the given page space
OnePage(s, page) == ("R" :> Root(s, << <<"p1">> >>)) @@ ("p1" :> page)
GenSection(s, d) ==
  LET n == Pick(s, 1, <<1, 1, 2, 3>>)
      series == CASE n = 1 -> << <<"p1">> >> [] n = 2 -> Pick(s, 2, << << <<"p1">>, <<"p2">> >>, << <<"p2", "p1">> >> >>) [] OTHER -> Pick(s, 3, << << <<"p3">>, <<>>, <<"p1", "p2">> >>, << <<"p2", "p3", "p1">> >> >>)
  IN ("R" :> Root(Sub(s, 4), series)) @@ Union([i \in 1..n |-> ("p" \o ToString(i) :> GenPage(Sub(s, 10 + i), "p" \o ToString(i), d))])

\* physical layouts
Layout(s) == [pack |-> Pick(s, 1, <<"", "", "new", "revlegacy">>), decoy |-> Pick(s, 2, << <<>>, <<"si", "sm">> >>),
  enc |-> [seed |-> 1 + Below(Sub(s, 3), 100000), w |-> Pick(s, 4, <<"", "rand", "max">>), shuffle |-> Coin(s, 5, 1, 2), split |-> 1 + Below(Sub(s, 6), 3),
           extra |-> Below(Sub(s, 7), 3), cid |-> Pick(s, 8, <<"uniq", "target", "same", "mix", "seq", "allsame">>), salt |-> Below(Sub(s, 9), 9)]]
============================================================================
