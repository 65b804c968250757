------------------------------- MODULE Attr -------------------------------
(* P07: every attribute of every kind of object, for every class of value   *)
(* (exhaustively for enumerations), absent, of a wrong type, out of range.   *)
EXTENDS Base
Seq0(m, f(_)) == [i \in 1..(m + 1) |-> f(i - 1)]
Rep(b, m) == [i \in 1..m |-> b]
Byte(x) == <<x>>
Low(x) == <<x, 0>>
Low4(x) == <<x, 0, 0, 0>>
Bits4 == [i \in 1..32 |-> [j \in 1..4 |-> IF (i - 1) \div 8 + 1 = j THEN 2^((i - 1) % 8) ELSE 0]]
BadStrs == << <<55357>>, <<56832>>, <<65, 55357, 65>>, <<56832, 55357>>, <<65, 55296>> >>
MoreStrs == Strs \o BadStrs \o << Rep(8364, 40), <<0>>, <<65, 0, 55357>>, <<65279, 65>>, <<65534>>, <<46, 79, 78, 69>>, <<55295, 57344>> >>
PVs(n, vs) == Map(LAMBDA v : PV(n, v), vs)
PIs(n, vs) == Map(LAMBDA v : PI(n, v), vs)
\* all values of type ty that are tried for attribute n
Values(n, ty) ==
  CASE ty = "bool" -> <<PB(n, TRUE), PB(n, FALSE)>>
    [] ty = "u8" -> PIs(n, << <<0>>, <<1>>, <<2>>, <<127>>, <<128>>, <<255>> >>)
    [] ty = "u16" -> PIs(n, << <<0,0>>, <<1,0>>, <<255,0>>, <<0,1>>, <<255,127>>, <<0,128>>, <<255,255>> >>)
    [] ty = "u32" -> PIs(n, U32s \o << <<255,255,0,0>>, <<0,0,1,0>>, <<1,2,3,4>>, <<254,255,255,127>> >>)
    [] ty = "f32" -> PIs(n, F32s \o << <<255,255,127,0>>, <<0,0,0,63>>, <<1,0,0,128>>, <<0,0,192,127>>, <<0,0,128,75>>, <<17,34,51,68>> >>)
    [] ty = "u64" -> PIs(n, << Rep(0, 8), Rep(255, 8), <<1,2,3,4,5,6,7,8>> >>)
    [] ty \in {"bytes", "tail"} -> PVs(n, << <<>>, <<0>>, <<255, 1>>, Rep(7, 300), <<3, 128, 0, 255>> >>)
    [] ty = "guid" -> PVs(n, << Rep(0, 16), Rep(255, 16), RBytes(S0, 15), <<>> >>)
    [] ty = "str" -> Map(LAMBDA u : PS(n, u), MoreStrs)
    [] ty = "latin" -> PVs(n, << <<>>, <<65>>, [i \in 1..127 |-> i], [i \in 1..128 |-> 127 + i], <<65, 0, 66>>, <<228, 246, 252, 223>> >>)
    [] ty = "u32s" -> PVs(n, << <<>>, LE4(1), LE4(1) \o LE4(2) \o <<255, 255, 255, 255>>, <<0, 0, 0, 128>> >>)
    [] ty = "widths" -> PVs(n, << <<0>>, <<1>> \o F32s[3], <<2>> \o F32s[3] \o F32s[4], <<3>> \o F32s[5] \o F32s[8] \o F32s[2] >>)
    [] ty = "lfmt" -> Map(LAMBDA u : PS(n, u), << <<>>, <<0>>, <<3, 65>>, <<3, 65533, 4, 46>>, <<1, 55357, 56832>>, <<2, 55357>>, <<2, 56832, 65>>, <<2, 0, 1>>, <<55357, 56832>>, <<1, 65535, 57344>> >>)
    [] ty = "indents" -> PVs(n, << <<0,0,0,0>>, <<0,9,9,9>>, <<1,0,0,0>> \o F32s[3], <<2,0,7,0>> \o F32s[3] \o F32s[4], <<1,0,0,0>>, <<2,0,0,0>> \o F32s[3],
                                 <<>>, <<0,0>>, <<3,0,0,0>> \o F32s[1] \o F32s[5] \o F32s[6] >>)
    [] ty = "la" -> PIs(n, Seq0(255, LAMBDA x : <<x, 0, 0, 0>>) \o Seq0(15, LAMBDA x : <<2, 0, x, 0>>) \o Seq0(7, LAMBDA x : <<9 + x, 255, 255, 127>>)
                           \o Seq0(7, LAMBDA x : <<x, 0, 9, 128>>) \o << <<1, 0, 254, 0>>, <<1, 0, 247, 0>>, <<1, 255, 0, 0>>, <<255, 255, 255, 255>> >>)
    [] ty = "color" -> PIs(n, << <<0,0,0,0>>, <<255,255,255,255>>, <<1,2,3,4>>, <<255,0,0,0>>, <<0,255,0,127>>, <<0,0,255,128>>, <<9,8,7,255>>, <<9,8,7,254>> >>)
    [] ty = "cref" -> PIs(n, << <<0,0,0,0>>, <<255,255,255,0>>, <<1,2,3,0>>, <<255,0,0,255>>, <<0,0,0,255>>, <<255,255,255,255>>, <<1,2,3,1>>, <<1,2,3,254>>, <<1,2,3,128>> >>)
    [] ty = "ftype" -> PIs(n, Seq0(4, Low4) \o << <<1,1,0,0>>, <<255,255,255,255>>, <<0,0,0,1>> >>)
    [] ty \in {"palign", "charset"} -> PIs(n, Seq0(255, Byte))
    [] ty = "shape" -> PIs(n, Seq0(160, Low) \o << <<0, 1>>, <<12, 1>>, <<255, 255>>, <<1, 128>> >>)
    [] ty = "action" -> PIs(n, Seq0(110, Low) \o << <<0, 1>>, <<1, 1>>, <<100, 1>>, <<255, 255>> >>)
    [] ty = "status" -> PIs(n, Seq0(255, Low) \o << <<0, 255>>, <<7, 255>>, <<0, 1>> >>)
    [] ty = "tagbits" -> PIs(n, Bits4 \o << <<0,0,0,0>>, <<255,255,255,255>>, <<170,85,170,85>>, <<85,170,85,170>>, <<48, 252, 255, 255>> >>)
    [] ty = "bias" -> PIs(n, Seq0(4, Byte) \o << <<255>> >>)
    [] ty = "mtype" -> PIs(n, Seq0(60, Low4) \o << <<0,0,0,144>>, <<16,1,0,0>>, <<16,0,0,144>>, <<0,0,0,128>>, <<255,255,255,255>> >>)
    [] ty = "mchar" -> PIs(n, << <<0,0>>, <<65,0>>, <<255,215>>, <<0,216>>, <<255,223>>, <<0,224>>, <<255,255>>, <<1,220>>, <<12,34>> >>)
    [] OTHER -> <<>>
\* the same attribute stored with another type
Retyped(n, ty) ==
  LET ok == CASE ty = "bool" -> 2 [] ty \in {"u8", "palign", "charset", "bias"} -> 3 [] ty \in {"u16", "shape", "action", "status", "mchar"} -> 4
              [] ty \in {"u32", "f32", "la", "color", "cref", "ftype", "tagbits", "mtype"} -> 5 [] ty = "u64" -> 6 [] ty = "oid" -> 8 [] ty = "oids" -> 9
              [] ty = "spaces" -> 11 [] ty = "sets" -> 16 [] OTHER -> 7
      all == << [n |-> n, t |-> 1], PB(n, TRUE), PI(n, <<1>>), PI(n, <<1, 0>>), PI(n, <<1, 0, 0, 0>>), PI(n, Rep(0, 8)), PV(n, Rep(0, 16)),
                [n |-> n, t |-> 8, r |-> <<"zz1">>], [n |-> n, t |-> 9, r |-> <<"zz1">>], [n |-> n, t |-> 10, r |-> <<"zs1">>], [n |-> n, t |-> 11, r |-> <<"zs1">>],
                [n |-> n, t |-> 12, r |-> <<"zc1">>], [n |-> n, t |-> 13, r |-> <<"zc1">>], [n |-> n, t |-> 16, s |-> <<<<>>>>], [n |-> n, t |-> 17, s |-> <<<<>>>>] >>
  IN SelectSeq(all, LAMBDA p : p.t # ok)
\* attributes that the API does not expose: only their presence is varied
Hidden == [SectionNode |-> {"NotebookManagementEntityGuid", "TopologyCreationTimeStamp"},
  SectionMetadata |-> {"SchemaRevisionInOrderToRead", "SchemaRevisionInOrderToWrite"},
  PageSeriesNode |-> {"NotebookManagementEntityGuid", "MetaDataObjectsAboveGraphSpace", "TopologyCreationTimeStamp"},
  PageMetadata |-> {"NotebookManagementEntityGuid", "CachedTitleString", "TopologyCreationTimeStamp", "SchemaRevisionInOrderToRead", "SchemaRevisionInOrderToWrite", "IsDeletedGraphSpaceContent"},
  PageNode |-> {"LastModifiedTime", "CachedTitleStringFromPage", "PageWidth", "PortraitPage", "PageMarginOriginX", "PageMarginOriginY", "PageMarginLeft", "PageMarginRight", "PageMarginTop", "PageMarginBottom", "EditRootRtl"},
  TitleNode |-> {"LastModifiedTime"},
  OutlineNode |-> {"LastModifiedTime", "LayoutTightAlignment", "Deletable", "IsTitleDate", "CannotBeSelected", "IsTitleText", "IsReadOnly", "DescendantsCannotBeMoved", "LayoutTightLayout"},
  OutlineGroup |-> {"LastModifiedTime"},
  OutlineElementNode |-> {"CreationTimeStamp", "LastModifiedTime", "AuthorOriginal", "AuthorMostRecent", "OutlineElementRtl", "Deletable", "CannotBeSelected", "IsTitleText"},
  NumberListNode |-> {"LastModifiedTime", "LanguageId"},
  TableNode |-> {"LastModifiedTime"}, TableRowNode |-> {"LastModifiedTime"}, TableCellNode |-> {"LastModifiedTime"},
  ImageNode |-> {"LastModifiedTime", "IsLayoutSizeSetByUser", "LanguageId"},
  EmbeddedFileNode |-> {"LastModifiedTime", "PictureContainer", "IsLayoutSizeSetByUser", "RichEditTextUnicode", "RichEditTextLangId", "SourceFilepath", "PictureWidth", "PictureHeight", "LayoutAlignmentInParent", "LayoutAlignmentSelf"},
  RichTextNode |-> {"LastModifiedTime", "LayoutTightLayout", "IsTitleTime", "IsBoilerText", "IsTitleDate", "IsTitleText", "RichEditTextLangId", "ReadingOrderRtl"},
  ParagraphStyleObject |-> {"HyperlinkProtected", "Hidden"},
  NoteTag |-> {"NoteTagCreated"},
  InkContainer |-> {"LastModifiedTime"}, InkStrokeNode |-> {"InkBias", "LanguageId"},
  StrokePropertiesNode |-> {"InkAntialised", "InkFitToCurve", "InkIgnorePressure", "InkRasterOperation"}]
IsHidden(k, n) == k \in DOMAIN Hidden /\ n \in Hidden[k]
Kinds == <<"SectionNode", "SectionMetadata", "PageSeriesNode", "PageMetadata", "PageManifestNode", "PageNode", "TitleNode", "OutlineNode", "OutlineGroup",
  "OutlineElementNode", "NumberListNode", "TableNode", "TableRowNode", "TableCellNode", "ImageNode", "PictureContainer", "XpsContainer", "IFrameNode",
  "EmbeddedFileNode", "RichTextNode", "ParagraphStyleObject", "NoteTagSharedDefinitionContainer", "InkContainer", "InkDataNode", "InkStrokeNode",
  "StrokePropertiesNode", "NoteTag", "MathInline", "EmbeddedInk">>
Legal(ty, p) == Dec(ty, p) # <<>>
\* <<kind, attribute, type, replacement>>; no replacement = the attribute is absent
Variants(k, f) ==
  LET n == f[1] ty == f[2]
      vals == IF IsHidden(k, n) THEN SelectSeq(SubSeq(Values(n, ty), 1, Min2(3, Len(Values(n, ty)))), LAMBDA p : Legal(ty, p)) ELSE Values(n, ty) \o Retyped(n, ty)
  IN Map(LAMBDA p : <<k, n, <<p>>>>, vals) \o << <<k, n, <<>>>> >>
KindVariants(k) == Concat([i \in 1..Len(Flds[k]) |-> Variants(k, Flds[k][i])])
All == Concat([i \in 1..Len(Kinds) |-> KindVariants(Kinds[i])])
ASSUME TLCSet(4, All)
TheAll == TLCGet(4)
Total == Len(TheAll)
\* the properties with the attribute replaced; the 8-bit form of a text only counts without the wide form
NewProps(c) == LET ps == Without(PropsAt(c[1]), c[2]) IN (IF c[2] = "TextExtendedAscii" THEN Without(ps, "RichEditTextUnicode") ELSE ps) \o c[3]
CaseOf(i) == LET c == TheAll[i + 1] Sp == Put(c[1], Shuffle(Seed(VSeed, i), NewProps(c))) IN
  SectionCase(<<c[1], c[2], i>>, BaseDoc(Sp), <<NoLayout>>, Expect(Sp, Fname))
VARIABLE n
Init == n = Shard
Next == n + Shards < Min2(Limit, Total) /\ n' = n + Shards
Emitted == n < Min2(Limit, Total) => EmitCase(CaseOf(Idx(n, Total)))
\* model properties: a document that stores a legal value for a present attribute is accepted, an illegal one is not
Sound == n < Min2(Limit, Total) =>
  LET c == TheAll[Idx(n, Total) + 1] f == CHOOSE f \in ToSet(Flds[c[1]]) : f[1] = c[2]
      e == Expect(Put(c[1], NewProps(c)), Fname) IN
  IF c[3] = <<>> THEN f[3] = 1 => ~e.ok ELSE ~Legal(f[2], c[3][1]) => ~e.ok
============================================================================
