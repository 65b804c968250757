------------------------------- MODULE Base -------------------------------
(* A page that has an object of every kind, with only the attributes that   *)
(* the format requires, to be varied in one place at a time.                *)
EXTENDS Emit
S0 == Seed(3, 3)
Node(k, more) == Obj(k, Attrs(k, S0, 0, 1) \o more)
BaseInk(id) ==
  (id :> Node("InkDataNode", <<PRs("InkStrokes", <<id \o "k">>), PV("InkBoundingBox", LE4(3) \o LE4(4) \o LE4(50) \o LE4(70))>>)) @@
  (id \o "k" :> Node("InkStrokeNode", <<PV("InkPath", MbInt(FALSE, 4) \o MbInt(FALSE, 10) \o MbInt(TRUE, 300) \o MbInt(FALSE, 7) \o MbInt(FALSE, 70000)), PR("InkStrokeProperties", id \o "p")>>)) @@
  (id \o "p" :> Node("StrokePropertiesNode", <<PV("InkDimensions", DimBytes(XDim, S0) \o DimBytes(YDim, S0))>>))
TagOn(d) == PSets("NoteTags", <<Attrs("NoteTag", S0, 0, 1) \o <<PR("NoteTagDefinitionOid", d)>>>>)
AllObjs == (
  ("M" :> Node("PageManifestNode", <<PRs("ContentChildNodes", <<"P">>)>>)) @@
  ("N" :> Node("PageMetadata", <<>>)) @@
  ("P" :> Node("PageNode", <<PRs("StructureElementChildNodes", <<"T">>), PRs("ElementChildNodes", <<"O", "I2", "F2", "K2">>)>>)) @@
  ("T" :> Node("TitleNode", <<PRs("ElementChildNodes", <<"TO">>)>>)) @@
  ("TO" :> Node("OutlineNode", <<PRs("ElementChildNodes", <<"TE">>)>>)) @@
  ("TE" :> Node("OutlineElementNode", ElementRefs("") \o <<PRs("ContentChildNodes", <<"TX">>)>>)) @@
  ("TX" :> Node("RichTextNode", <<PR("ParagraphStyle", "S"), PS("RichEditTextUnicode", <<84>>)>>)) @@
  ("O" :> Node("OutlineNode", <<PRs("ElementChildNodes", <<"G", "E">>)>>)) @@
  ("G" :> Node("OutlineGroup", <<PRs("ElementChildNodes", <<"E2">>)>>)) @@
  ("E2" :> Node("OutlineElementNode", ElementRefs(""))) @@
  ("E" :> Node("OutlineElementNode", ElementRefs("") \o <<PRs("ContentChildNodes", <<"X", "B", "I", "F", "K", "Y">>), PRs("ListNodes", <<"L">>)>>)) @@
  ("a" :> Obj("AuthorContainer", <<>>)) @@
  ("L" :> Node("NumberListNode", <<>>)) @@
  ("X" :> Node("RichTextNode", <<PR("ParagraphStyle", "S"), PRs("TextRunFormatting", <<"S1", "S2">>), PV("TextRunIndex", LE4(2)),
              PS("RichEditTextUnicode", <<65, 66, 67>>), TagOn("D"), PSets("TextRunData", << <<>>, Attrs("MathInline", S0, 0, 1)>>)>>)) @@
  ("Y" :> Node("RichTextNode", <<PR("ParagraphStyle", "S"), PRs("TextRunFormatting", <<"S3", "S4">>), PRs("TextRunDataObject", <<"J">>),
              PSets("TextRunData", << <<>>, <<Val("EmbeddedInkSpaceWidth", "f32", S0), Val("EmbeddedInkSpaceHeight", "f32", S0)>> >>)>>)) @@
  ("S" :> Node("ParagraphStyleObject", <<>>)) @@ ("S1" :> Node("ParagraphStyleObject", <<PB("Bold", TRUE)>>)) @@
  ("S2" :> Node("ParagraphStyleObject", <<PB("MathFormatting", TRUE)>>)) @@ ("S3" :> Node("ParagraphStyleObject", <<PB("TextRunIsEmbeddedObject", TRUE)>>)) @@
  ("S4" :> Node("ParagraphStyleObject", <<PB("TextRunIsEmbeddedObject", TRUE), PI("EmbeddedObjectType", INKSPACE)>>)) @@
  ("D" :> Node("NoteTagSharedDefinitionContainer", <<>>)) @@ ("D2" :> Obj("NoteTagSharedDefinitionContainer", SelectSeq(Attrs("NoteTagSharedDefinitionContainer", S0, 0, 1), LAMBDA p : p.n # "NoteTagLabel") \o <<PS("NoteTagLabel", <<66>>)>>)) @@
  ("B" :> Node("TableNode", <<PRs("ElementChildNodes", <<"W">>), TagOn("D2")>>)) @@
  ("W" :> Node("TableRowNode", <<PRs("ElementChildNodes", <<"C">>)>>)) @@
  ("C" :> Node("TableCellNode", <<PRs("ElementChildNodes", <<"CE">>)>>)) @@
  ("CE" :> Node("OutlineElementNode", ElementRefs(""))) @@
  ("I" :> Node("ImageNode", <<PR("PictureContainer", "IC"), PRs("ContentChildNodes", <<"R">>), TagOn("D")>>)) @@
  ("IC" :> ObjB("PictureContainer", <<>>, <<"b1">>)) @@ ("R" :> Node("IFrameNode", <<>>)) @@
  ("I2" :> Node("ImageNode", <<PR("PictureContainer", "IX")>>)) @@ ("IX" :> ObjB("XpsContainer", <<>>, <<"b2">>)) @@
  ("F" :> Node("EmbeddedFileNode", <<PR("EmbeddedFileContainer", "FC"), TagOn("D2")>>)) @@ ("FC" :> ObjB("EmbeddedFileContainer", <<>>, <<"b3">>)) @@
  ("F2" :> Node("EmbeddedFileNode", <<PR("EmbeddedFileContainer", "FC")>>)) @@
  ("K" :> Node("InkContainer", <<PR("InkData", "KD")>>)) @@ ("K2" :> Node("InkContainer", <<PR("InkData", "KE")>>)) @@
  BaseInk("KD") @@ BaseInk("KE") @@ BaseInk("J"))
BasePage == [roots |-> [content |-> "M", metadata |-> "N"], objs |-> AllObjs]
BaseRoot == [roots |-> [content |-> "SN", metadata |-> "SM"], objs |->
  ("SN" :> Node("SectionNode", <<PRs("ElementChildNodes", <<"SS">>)>>)) @@ ("SM" :> Node("SectionMetadata", <<>>)) @@
  ("SS" :> Node("PageSeriesNode", <<PSp("ChildGraphSpaceElementNodes", <<"p1">>)>>))]
\* kept in registers of TLC, which would otherwise compute them again and again
ASSUME TLCSet(2, TLCEval(AllObjs)) /\ TLCSet(3, TLCEval( ("R" :> BaseRoot) @@ ("p1" :> BasePage)))
BaseObjs == TLCGet(2)
BaseSp == TLCGet(3)
BaseDoc(Sp) == [schema |-> "section", root |-> "R", spaces |-> [x \in DOMAIN Sp |-> [revs |-> <<[roots |-> Sp[x].roots, objs |-> Sp[x].objs]>>]],
                blobs |-> [b1 |-> [b |-> <<1, 2, 3>>], b2 |-> [n |-> 30, s |-> 4], b3 |-> [n |-> 40, s |-> 5]]]
\* where the objects of each kind are: <<space, object>>
Spot == [SectionNode |-> <<"R", "SN">>, SectionMetadata |-> <<"R", "SM">>, PageSeriesNode |-> <<"R", "SS">>, PageMetadata |-> <<"p1", "N">>,
  PageManifestNode |-> <<"p1", "M">>, PageNode |-> <<"p1", "P">>, TitleNode |-> <<"p1", "T">>, OutlineNode |-> <<"p1", "O">>,
  OutlineGroup |-> <<"p1", "G">>, OutlineElementNode |-> <<"p1", "E">>, NumberListNode |-> <<"p1", "L">>, TableNode |-> <<"p1", "B">>,
  TableRowNode |-> <<"p1", "W">>, TableCellNode |-> <<"p1", "C">>, ImageNode |-> <<"p1", "I">>, PictureContainer |-> <<"p1", "IC">>,
  XpsContainer |-> <<"p1", "IX">>, IFrameNode |-> <<"p1", "R">>, EmbeddedFileNode |-> <<"p1", "F">>, RichTextNode |-> <<"p1", "X">>,
  ParagraphStyleObject |-> <<"p1", "S1">>, NoteTagSharedDefinitionContainer |-> <<"p1", "D">>, InkContainer |-> <<"p1", "K">>,
  InkDataNode |-> <<"p1", "KD">>, InkStrokeNode |-> <<"p1", "KDk">>, StrokePropertiesNode |-> <<"p1", "KDp">>,
  EmbeddedFileContainer |-> <<"p1", "FC">>]
Without(ps, n) == SelectSeq(ps, LAMBDA p : p.n # n)
SetProps(Sp, sid, oid, ps) == [Sp EXCEPT ![sid].objs[oid].p = ps]
\* property lists nested in others: <<object, property, position>>
Nested == [NoteTag |-> <<"X", "NoteTags", 1>>, MathInline |-> <<"X", "TextRunData", 2>>, EmbeddedInk |-> <<"Y", "TextRunData", 1>>]
\* the properties of the spot of kind k, and the page with them replaced
PropsAt(k) == IF k \in DOMAIN Nested THEN LET z == Nested[k] IN SelectSeq(BaseObjs[z[1]].p, LAMBDA p : p.n = z[2])[1].s[z[3]] ELSE BaseSp[Spot[k][1]].objs[Spot[k][2]].p
Put(k, ps) ==
  IF k \in DOMAIN Nested
  THEN LET z == Nested[k] old == BaseObjs[z[1]].p IN
       SetProps(BaseSp, "p1", z[1], [i \in 1..Len(old) |-> IF old[i].n = z[2] THEN [old[i] EXCEPT !.s[z[3]] = ps] ELSE old[i]])
  ELSE SetProps(BaseSp, Spot[k][1], Spot[k][2], ps)
============================================================================
