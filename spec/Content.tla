------------------------------ MODULE Content ------------------------------
(***************************************************************************)
(* What the API shows for the stored content (properties P05-P11, P16,     *)
(* P17, P19).                                                              *)
(*                                                                         *)
(* A resolved object space is a record                                     *)
(*     [roots |-> [content |-> oid, metadata |-> oid], objs |-> [oid -> o]]*)
(* An object is [k |-> kind, p |-> sequence of properties, b |-> <<>> or   *)
(* <<blob>>].  A property is [n |-> name, t |-> type, v |-> bytes,         *)
(* r |-> targets, s |-> nested property lists]; the fields used depend on  *)
(* the type t.  r holds the targets that the file assigns to this very     *)
(* property, in order; "" is a position to which nothing is assigned.      *)
(*                                                                         *)
(* ...OK operators decide whether a node can be shown at all; ...View      *)
(* operators say what is shown.  Numbers are little-endian bytes, strings  *)
(* are sequences of UTF-16 units, options are sequences of length 0 or 1.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Shapes

Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Map(f(_), q) == TLCEval([i \in 1..Len(q) |-> f(q[i])])
Bit(x, k) == (x \div 2^k) % 2 = 1
NonEmpty(q) == SelectSeq(q, LAMBDA x : x # "")
\* fields that are missing from hand-written or reduced objects
Tgt(p) == IF "r" \in DOMAIN p THEN p.r ELSE <<>>
Sets(p) == IF "s" \in DOMAIN p THEN p.s ELSE <<>>

--------------------------------------------------------------------------
\* A property set is a map from properties to values (the last one wins).
NoProps == [x \in {} |-> 0]
RECURSIVE Keyed(_)
Keyed(ps) == FoldLeft(LAMBDA m, p : (p.n :> IF p.t = 16 THEN [p EXCEPT !.s = Map(Keyed, p.s)] ELSE p) @@ m, NoProps, ps)
Resolved(sp) == TLCEval([roots |-> sp.roots, objs |-> [o \in DOMAIN sp.objs |-> LET x == sp.objs[o] IN [k |-> x.k, p |-> Keyed(x.p), b |-> x.b]]])
Has(ps, n) == n \in DOMAIN ps
Prop(ps, n) == ps[n]

U16(v) == v[1] + 256 * v[2]
Units(v) == TLCEval([i \in 1..(Len(v) \div 2) |-> v[2*i - 1] + 256 * v[2*i]])
Words(v) == [i \in 1..(Len(v) \div 4) |-> SubSeq(v, 4*i - 3, 4*i)]
IsHi(u) == u >= 55296 /\ u <= 56319
IsLo(u) == u >= 56320 /\ u <= 57343
UpToNul(u) == LET Z == {i \in 1..Len(u) : u[i] = 0} IN IF Z = {} THEN u ELSE SubSeq(u, 1, MinOf(Z) - 1)
Utf16OK(u) == \A i \in 1..Len(u) : /\ IsHi(u[i]) => i < Len(u) /\ IsLo(u[i+1])
                                   /\ IsLo(u[i]) => i > 1 /\ IsHi(u[i-1])
CodePoints(u) ==
  SelectSeq([i \in 1..Len(u) |-> IF IsHi(u[i]) /\ i < Len(u) /\ IsLo(u[i + 1]) THEN 65536 + (u[i] - 55296) * 1024 + (u[i + 1] - 56320)
                                  ELSE IF IsLo(u[i]) /\ i > 1 /\ IsHi(u[i - 1]) THEN -1
                                  ELSE IF IsHi(u[i]) \/ IsLo(u[i]) THEN 65533 ELSE u[i]], LAMBDA x : x >= 0)

\* Windows character sets and other enumerations
Charsets == (0 :> "Ansi") @@ (1 :> "Default") @@ (2 :> "Symbol") @@ (77 :> "Mac") @@ (128 :> "ShiftJis") @@ (129 :> "Hangul")
  @@ (130 :> "Johab") @@ (134 :> "Gb2312") @@ (136 :> "ChineseBig5") @@ (161 :> "Greek") @@ (162 :> "Turkish")
  @@ (163 :> "Vietnamese") @@ (177 :> "Hebrew") @@ (178 :> "Arabic") @@ (186 :> "Baltic") @@ (204 :> "Russian")
  @@ (222 :> "Thai") @@ (238 :> "EastEurope") @@ (255 :> "Oem")
Horizontal == <<"Unknown", "Left", "Center", "Right", "BiDiNormal", "BiDiReverse">>
MathTypes == (0 :> "SimpleText") @@ (10 :> "Accent") @@ (11 :> "Box") @@ (12 :> "BoxedFormula") @@ (13 :> "Brackets")
  @@ (14 :> "BracketsWithSeps") @@ (15 :> "EquationArray") @@ (16 :> "Fraction") @@ (17 :> "FunctionApply")
  @@ (18 :> "LeftSubSup") @@ (19 :> "LowerLimit") @@ (20 :> "Matrix") @@ (21 :> "Nary") @@ (22 :> "OpChar") @@ (23 :> "Overbar")
  @@ (24 :> "Phantom") @@ (25 :> "Radical") @@ (26 :> "SlashedFraction") @@ (27 :> "Stack") @@ (28 :> "StretchStack")
  @@ (29 :> "Subscript") @@ (30 :> "SubSup") @@ (31 :> "Superscript") @@ (32 :> "Underbar") @@ (33 :> "UpperLimit")
ActionName(n) == IF n <= 99 THEN "Numeric(" \o ToString(n) \o ")"
  ELSE CASE n = 100 -> "DueToday" [] n = 101 -> "DueTomorrow" [] n = 102 -> "DueThisWeek" [] n = 103 -> "DueNextWeek"
         [] n = 104 -> "NoDueDate" [] n = 105 -> "CustomDueDate" [] OTHER -> "Unknown"
ParaAlign(b) == CASE b = 0 -> "Left" [] b = 1 -> "Center" [] b = 2 -> "Right" [] OTHER -> "Unknown"

--------------------------------------------------------------------------
(* MS-ISF multi-byte integers: 7 bits per byte, low group first, high bit   *)
(* set on all but the last; at most 10 bytes.  A signed number keeps its    *)
(* sign in bit 0.  Numbers are sequences of 64 bits.                        *)
RECURSIVE MbEnd(_, _)
MbEnd(v, i) == IF i > Len(v) THEN 0 ELSE IF v[i] < 128 THEN i ELSE MbEnd(v, i + 1)
MbBits(v, i, e) == [k \in 1..64 |-> LET g == (k - 1) \div 7 IN IF i + g > e THEN FALSE ELSE Bit(v[i + g] % 128, (k - 1) % 7)]
MagOf(bits) == [j \in 1..8 |-> LET B(q) == IF 8*(j-1) + q + 1 <= 64 /\ bits[8*(j-1) + q + 1] THEN 2^(q-1) ELSE 0
                               IN B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7) + B(8)]
Signed(bits) == [neg |-> bits[1], mag |-> MagOf(bits)]
\* numbers n.. starting at byte i; <<>> if malformed, else <<sequence>>
MbSeq(v, i, n) ==
  LET ends == TLCEval(SelectSeq([j \in 1..(Len(v) - i + 1) |-> i - 1 + j], LAMBDA j : v[j] < 128))
      Start(k) == IF k = 1 THEN i ELSE ends[k - 1] + 1
  IN IF Len(ends) < n \/ (\E k \in 1..n : ends[k] - Start(k) >= 10) THEN <<>>
     ELSE << TLCEval([k \in 1..n |-> LET bits == TLCEval(MbBits(v, Start(k), ends[k])) IN Signed(bits)]) >>
\* a signed list is preceded by its signed length
MbList(v) ==
  LET e == MbEnd(v, 1) IN
  IF e = 0 \/ e > 10 THEN <<>>
  ELSE LET m == MagOf(MbBits(v, 1, e)) IN
       IF \E j \in 4..8 : m[j] # 0 THEN <<>>
       ELSE LET n == m[1] + 256 * m[2] + 65536 * m[3] IN
            IF n > Len(v) - e THEN <<>> ELSE MbSeq(v, e + 1, n)

--------------------------------------------------------------------------
(* Decoding of one stored property as a value of type ty: <<>> if the       *)
(* stored value has the wrong type or is out of range, else <<value>>.      *)
Dec(ty, p) ==
  CASE ty = "bool"  -> IF p.t # 2 THEN <<>> ELSE <<p.v[1] # 0>>
    [] ty = "u8"    -> IF p.t # 3 THEN <<>> ELSE <<p.v>>
    [] ty = "u16"   -> IF p.t # 4 THEN <<>> ELSE <<p.v>>
    [] ty = "u32"   -> IF p.t # 5 THEN <<>> ELSE <<p.v>>
    [] ty = "f32"   -> IF p.t # 5 THEN <<>> ELSE <<p.v>>
    [] ty = "u64"   -> IF p.t # 6 THEN <<>> ELSE <<p.v>>
    [] ty = "bytes" -> IF p.t # 7 THEN <<>> ELSE <<p.v>>
    [] ty = "tail"  -> IF p.t # 7 THEN <<>> ELSE <<IF p.v = <<>> THEN <<>> ELSE Tail(p.v)>>
    [] ty = "guid"  -> IF p.t # 7 \/ Len(p.v) < 16 THEN <<>> ELSE <<SubSeq(p.v, 1, 16)>>
    [] ty = "str"   -> IF p.t # 7 THEN <<>> ELSE LET u == UpToNul(Units(p.v)) IN IF Utf16OK(u) THEN <<u>> ELSE <<>>
    [] ty = "latin" -> IF p.t # 7 THEN <<>> ELSE <<p.v>>
    [] ty = "u32s"  -> IF p.t # 7 THEN <<>> ELSE <<Words(p.v)>>
    [] ty = "widths" -> IF p.t # 7 THEN <<>> ELSE <<IF p.v = <<>> THEN <<>> ELSE Words(Tail(p.v))>>
    [] ty = "lfmt"  -> IF p.t # 7 \/ Len(p.v) < 2 THEN <<>> ELSE <<CodePoints(Tail(Units(p.v)))>>
    [] ty = "indents" -> IF p.t # 7 \/ Len(p.v) < 4 \/ Len(p.v) < 4 + 4 * p.v[1] THEN <<>>
                         ELSE <<[i \in 1..p.v[1] |-> SubSeq(p.v, 4*i + 1, 4*i + 4)]>>
    [] ty = "la"    -> IF p.t # 5 THEN <<>>
                       ELSE IF Bit(p.v[4], 7) THEN << <<>> >>
                       ELSE LET h == p.v[1] % 8 IN
                            IF h > 5 THEN <<>>
                            ELSE << << <<Horizontal[h + 1], IF Bit(p.v[1], 3) THEN "Left" ELSE "Right",
                                        IF Bit(p.v[3], 0) THEN "Top" ELSE "Bottom", IF Bit(p.v[3], 3) THEN "Top" ELSE "Bottom">> >> >>
    [] ty = "color" -> IF p.t # 5 THEN <<>> ELSE << <<255 - p.v[4], p.v[1], p.v[2], p.v[3]>> >>
    [] ty = "cref"  -> IF p.t # 5 THEN <<>>
                       ELSE CASE p.v[4] = 255 -> <<"Auto">> [] p.v[4] = 0 -> << <<p.v[1], p.v[2], p.v[3]>> >> [] OTHER -> <<>>
    [] ty = "ftype" -> IF p.t # 5 THEN <<>>
                       ELSE CASE p.v = <<1, 0, 0, 0>> -> <<"Audio">> [] p.v = <<2, 0, 0, 0>> -> <<"Video">> [] OTHER -> <<>>
    [] ty = "palign" -> IF p.t # 3 THEN <<>> ELSE <<ParaAlign(p.v[1])>>
    [] ty = "charset" -> IF p.t # 3 \/ p.v[1] \notin DOMAIN Charsets THEN <<>> ELSE <<Charsets[p.v[1]]>>
    [] ty = "shape" -> IF p.t # 4 \/ U16(p.v) >= Len(ShapeNames) THEN <<>> ELSE <<ShapeNames[U16(p.v) + 1]>>
    [] ty = "action" -> IF p.t # 4 THEN <<>> ELSE <<ActionName(U16(p.v))>>
    [] ty = "status" -> IF p.t # 4 THEN <<>> ELSE << <<Bit(p.v[1], 0), Bit(p.v[1], 1), Bit(p.v[1], 2)>> >>
    [] ty = "tagbits" -> IF p.t # 5 THEN <<>>
                       ELSE << <<Bit(p.v[1], 0), Bit(p.v[1], 1), Bit(p.v[1], 2), Bit(p.v[1], 3), Bit(p.v[1], 6), Bit(p.v[1], 7),
                                 Bit(p.v[2], 0), Bit(p.v[2], 1), Bit(p.v[2], 2), Bit(p.v[2], 3)>> >>
    [] ty = "bias"  -> IF p.t # 3 \/ p.v[1] > 2 THEN <<>> ELSE <<p.v>>
    [] ty = "path"  -> IF p.t # 7 THEN <<>> ELSE MbList(p.v)
    [] ty = "dims"  -> IF p.t # 7 THEN <<>> ELSE <<[i \in 1..(Len(p.v) \div 32) |-> SubSeq(p.v, 32*i - 31, 32*i - 16)]>>
    [] ty = "mtype" -> IF p.t # 5 THEN <<>>
                       ELSE IF p.v = <<0, 0, 0, 144>> THEN <<"PlainText">>
                       ELSE IF p.v[2] = 0 /\ p.v[3] = 0 /\ p.v[4] = 0 /\ p.v[1] \in DOMAIN MathTypes THEN <<MathTypes[p.v[1]]>> ELSE <<>>
    [] ty = "mchar" -> IF p.t # 4 \/ IsHi(U16(p.v)) \/ IsLo(U16(p.v)) THEN <<>> ELSE <<U16(p.v)>>
    [] ty = "oid"   -> IF p.t # 8 THEN <<>> ELSE <<p.r>>
    [] ty = "oids"  -> IF p.t # 9 THEN <<>> ELSE <<NonEmpty(p.r)>>
    [] ty = "spaces" -> IF p.t # 11 THEN <<>> ELSE <<NonEmpty(p.r)>>
    [] ty = "sets"  -> IF p.t # 16 THEN <<>> ELSE <<p.s>>
    [] OTHER -> Assert(FALSE, ty)

--------------------------------------------------------------------------
(* The attributes of each kind of object: name, type and whether the file   *)
(* must store it (1).                                                       *)
Mod == <<"LastModifiedTime", "u32", 1>>
ModOpt == <<"LastModifiedTime", "u32", 0>>
Aligns == << <<"LayoutAlignmentInParent", "la", 0>>, <<"LayoutAlignmentSelf", "la", 0>> >>
Offsets == << <<"OffsetFromParentHoriz", "f32", 0>>, <<"OffsetFromParentVert", "f32", 0>> >>
MaxSize == << <<"LayoutMaxWidth", "f32", 0>>, <<"LayoutMaxHeight", "f32", 0>> >>
F(n, t) == <<n, t, 0>>
R(n, t) == <<n, t, 1>>
Flds == [
  SectionNode |-> <<R("NotebookManagementEntityGuid", "guid"), R("TopologyCreationTimeStamp", "u64"), F("ElementChildNodes", "oids")>>,
  SectionMetadata |-> <<R("SchemaRevisionInOrderToRead", "u32"), R("SchemaRevisionInOrderToWrite", "u32"),
                        F("SectionDisplayName", "str"), F("SectionColor", "color")>>,
  PageSeriesNode |-> <<R("NotebookManagementEntityGuid", "guid"), F("ChildGraphSpaceElementNodes", "spaces"),
                       F("MetaDataObjectsAboveGraphSpace", "oids"), F("TopologyCreationTimeStamp", "u64")>>,
  PageMetadata |-> <<R("NotebookManagementEntityGuid", "guid"), R("CachedTitleString", "str"), R("TopologyCreationTimeStamp", "u64"),
                     F("SchemaRevisionInOrderToRead", "u32"), F("SchemaRevisionInOrderToWrite", "u32"), F("PageLevel", "u32"),
                     F("IsDeletedGraphSpaceContent", "bool")>>,
  PageManifestNode |-> <<R("ContentChildNodes", "oids")>>,
  PageNode |-> <<ModOpt, F("CachedTitleStringFromPage", "str"), F("Author", "str"), F("ElementChildNodes", "oids"),
                 F("StructureElementChildNodes", "oids"), F("PageWidth", "f32"), F("PageHeight", "f32"), F("PortraitPage", "bool"),
                 F("PageMarginOriginX", "f32"), F("PageMarginOriginY", "f32"), F("PageMarginLeft", "f32"), F("PageMarginRight", "f32"),
                 F("PageMarginTop", "f32"), F("PageMarginBottom", "f32"), F("EditRootRtl", "bool")>>,
  TitleNode |-> <<Mod, R("ElementChildNodes", "oids"), R("OffsetFromParentHoriz", "f32"), R("OffsetFromParentVert", "f32")>> \o Aligns,
  OutlineNode |-> <<Mod, F("ElementChildNodes", "oids"), R("OutlineElementChildLevel", "u8"), F("LayoutMaxHeight", "f32"),
                    F("LayoutOutlineReservedWidth", "f32"), F("LayoutMinimumOutlineWidth", "f32"), F("LayoutMaxWidth", "f32"),
                    F("LayoutTightAlignment", "bool"), F("IsLayoutSizeSetByUser", "bool"), F("ListSpacingMu", "f32"),
                    R("RgOutlineIndentDistance", "indents"), F("Deletable", "bool"), F("IsTitleDate", "bool"), F("CannotBeSelected", "bool"),
                    F("IsTitleText", "bool"), F("IsReadOnly", "bool"), F("DescendantsCannotBeMoved", "bool"), F("LayoutTightLayout", "bool")>>
                  \o Aligns \o Offsets,
  OutlineGroup |-> <<Mod, F("ElementChildNodes", "oids"), R("OutlineElementChildLevel", "u8")>>,
  OutlineElementNode |-> <<R("CreationTimeStamp", "u32"), Mod, F("ElementChildNodes", "oids"), R("OutlineElementChildLevel", "u8"),
                    F("ContentChildNodes", "oids"), F("ListNodes", "oids"), F("ListSpacingMu", "f32"), R("AuthorOriginal", "oid"),
                    R("AuthorMostRecent", "oid"), F("OutlineElementRtl", "bool"), F("Deletable", "bool"), F("CannotBeSelected", "bool"),
                    F("IsTitleText", "bool")>>,
  NumberListNode |-> <<Mod, F("ListFont", "str"), F("ListRestart", "u32"), R("NumberListFormat", "lfmt"), F("Bold", "bool"), F("Italic", "bool"),
                    F("LanguageId", "u32"), F("Font", "str"), F("FontSize", "u16"), F("FontColor", "cref")>>,
  TableNode |-> <<Mod, R("ElementChildNodes", "oids"), R("RowCount", "u32"), R("ColumnCount", "u32"), F("TableColumnsLocked", "tail"),
                    F("TableColumnWidths", "widths"), F("TableBordersVisible", "bool"), F("NoteTags", "sets")>> \o Aligns,
  TableRowNode |-> <<ModOpt, R("ElementChildNodes", "oids")>>,
  TableCellNode |-> <<ModOpt, R("ElementChildNodes", "oids"), F("LayoutMaxWidth", "f32"), R("RgOutlineIndentDistance", "indents"),
                    F("CellBackgroundColor", "color")>>,
  ImageNode |-> <<ModOpt, F("PictureContainer", "oid"), F("IsLayoutSizeSetByUser", "bool"), F("LanguageId", "u32"), F("ImageAltText", "str"),
                    F("ImageFilename", "str"), F("DisplayedPageNumber", "u32"), F("RichEditTextUnicode", "str"), F("RichEditTextLangId", "u16"),
                    F("PictureWidth", "f32"), F("PictureHeight", "f32"), F("WzHyperlinkUrl", "str"), F("IsBackground", "bool"),
                    F("NoteTags", "sets"), F("ContentChildNodes", "oids")>> \o Aligns \o Offsets \o MaxSize,
  PictureContainer |-> <<F("PictureFileExtension", "str")>>,
  XpsContainer |-> <<F("PictureFileExtension", "str")>>,
  IFrameNode |-> <<F("ImageEmbedType", "u32"), R("ImageEmbeddedUrl", "str")>>,
  EmbeddedFileNode |-> <<Mod, F("PictureContainer", "oid"), F("IsLayoutSizeSetByUser", "bool"), F("RichEditTextUnicode", "str"),
                    F("RichEditTextLangId", "u16"), R("EmbeddedFileContainer", "oid"), R("EmbeddedFileName", "str"), F("SourceFilepath", "str"),
                    F("IRecordMedia", "ftype"), F("PictureWidth", "f32"), F("PictureHeight", "f32"), F("NoteTags", "sets")>>
                    \o Aligns \o Offsets \o MaxSize,
  EmbeddedFileContainer |-> <<>>,
  RichTextNode |-> <<Mod, F("LayoutTightLayout", "bool"), F("TextRunFormatting", "oids"), F("TextRunIndex", "u32s"), F("TextRunDataObject", "oids"),
                    R("ParagraphStyle", "oid"), F("ParagraphSpaceBefore", "f32"), F("ParagraphSpaceAfter", "f32"),
                    F("ParagraphLineSpacingExact", "f32"), F("ParagraphAlignment", "palign"), F("RichEditTextUnicode", "str"),
                    F("TextExtendedAscii", "latin"), F("IsTitleTime", "bool"), F("IsBoilerText", "bool"), F("IsTitleDate", "bool"),
                    F("IsTitleText", "bool"), F("RichEditTextLangId", "u16"), F("ReadingOrderRtl", "bool"), F("NoteTags", "sets"),
                    F("TextRunData", "sets")>> \o Aligns,
  ParagraphStyleObject |-> <<F("Charset", "charset"), F("Bold", "bool"), F("Italic", "bool"), F("Underline", "bool"), F("Strikethrough", "bool"),
                    F("Superscript", "bool"), F("Subscript", "bool"), F("Font", "str"), F("FontSize", "u16"), F("FontColor", "cref"),
                    F("Highlight", "cref"), F("NextStyle", "str"), F("ParagraphStyleId", "str"), F("ParagraphAlignment", "palign"),
                    F("ParagraphSpaceBefore", "f32"), F("ParagraphSpaceAfter", "f32"), F("ParagraphLineSpacingExact", "f32"),
                    F("LanguageId", "u32"), F("MathFormatting", "bool"), F("Hyperlink", "bool"), F("HyperlinkProtected", "bool"),
                    F("Hidden", "bool"), F("TextRunIsEmbeddedObject", "bool"), F("EmbeddedObjectType", "u32")>>,
  NoteTag |-> <<F("NoteTagDefinitionOid", "oid"), R("NoteTagCreated", "u32"), F("NoteTagCompleted", "u32"), R("ActionItemStatus", "status")>>,
  NoteTagSharedDefinitionContainer |-> <<R("NoteTagLabel", "str"), R("NoteTagPropertyStatus", "tagbits"), R("NoteTagShape", "shape"),
                    F("NoteTagHighlightColor", "cref"), F("NoteTagTextColor", "cref"), R("ActionItemType", "action")>>,
  InkContainer |-> <<ModOpt, F("InkData", "oid"), F("InkScalingX", "f32"), F("InkScalingY", "f32")>> \o Offsets,
  InkDataNode |-> <<R("InkStrokes", "oids"), F("InkBoundingBox", "u32s")>>,
  InkStrokeNode |-> <<R("InkPath", "path"), R("InkBias", "bias"), F("LanguageId", "u32"), R("InkStrokeProperties", "oid")>>,
  StrokePropertiesNode |-> <<F("InkAntialised", "bool"), F("InkFitToCurve", "bool"), F("InkIgnorePressure", "bool"), F("InkPenTip", "u8"),
                    F("InkRasterOperation", "u8"), F("InkTransparency", "u8"), R("InkHeight", "f32"), R("InkWidth", "f32"),
                    F("InkColor", "u32"), F("InkDimensions", "dims")>>,
  EmbeddedInk |-> <<F("EmbeddedInkSpaceWidth", "f32"), F("EmbeddedInkSpaceHeight", "f32"), F("EmbeddedInkStartX", "f32"),
                    F("EmbeddedInkStartY", "f32"), F("EmbeddedInkHeight", "f32"), F("EmbeddedInkWidth", "f32"),
                    F("EmbeddedInkOffsetHoriz", "f32"), F("EmbeddedInkOffsetVert", "f32")>>,
  MathInline |-> <<F("MathInlineObjectType", "mtype"), F("MathInlineObjectCount", "u32"), F("MathInlineObjectCol", "u8"),
                    F("MathInlineObjectAlign", "u8"), F("MathInlineObjectChar", "mchar"), F("MathInlineObjectChar1", "mchar"),
                    F("MathInlineObjectChar2", "mchar")>>,
  TocContainer |-> <<F("TocChildren", "oids"), F("FolderChildFilename", "str"), F("NotebookElementOrderingId", "u32"), F("SectionColor", "color")>> ]

\* The kinds of object of the format; any other kind is not readable.
KnownKinds == {"AuthorContainer", "EmbeddedFileContainer", "EmbeddedFileNode", "ImageNode", "NoteTagSharedDefinitionContainer",
  "NumberListNode", "OutlineElementNode", "OutlineGroup", "OutlineNode", "PageManifestNode", "PageMetadata", "PageNode",
  "PageSeriesNode", "ParagraphStyleObject", "PictureContainer", "RevisionMetadata", "RichTextNode", "SectionMetadata", "SectionNode",
  "TableCellNode", "TableNode", "TableRowNode", "TitleNode", "TocContainer", "XpsContainer", "InkContainer", "InkDataNode",
  "InkStrokeNode", "StrokePropertiesNode", "IFrameNode"}

\* A property list can be read as a value of kind k.  A mandatory reference must have a target.
FieldOK(ps, f) ==
  IF ~Has(ps, f[1]) THEN f[3] = 0
  ELSE LET p == Prop(ps, f[1]) IN
       IF f[2] = "oid" THEN p.t = 8 /\ (f[3] = 1 => p.r # <<>> /\ p.r[1] # "") ELSE Dec(f[2], p) # <<>>
SetOK(k, ps) == LET fs == Flds[k] IN \A i \in 1..Len(fs) : FieldOK(ps, fs[i])

\* Values of attributes that are known to be readable
Opt(ps, n, ty) == IF Has(ps, n) THEN Dec(ty, Prop(ps, n)) ELSE <<>>
Def(ps, n, ty, d) == IF Has(ps, n) THEN Dec(ty, Prop(ps, n))[1] ELSE d
Flag(ps, n) == Def(ps, n, "bool", FALSE)
Ref(ps, n) == IF Has(ps, n) THEN NonEmpty(Prop(ps, n).r) ELSE <<>>
Zero4 == <<0, 0, 0, 0>>
Align(ps, n) == Def(ps, n, "la", <<>>)

--------------------------------------------------------------------------
\* Readability of nodes, top down.  Every reference followed by the view must exist and have the right kind.
Is(sp, id, ks) == id \in DOMAIN sp.objs /\ sp.objs[id].k \in ks
P(sp, id) == sp.objs[id].p
NodeOK(sp, id, k) == Is(sp, id, {k}) /\ SetOK(k, P(sp, id))

TagsOK(sp, ps) == \A i \in 1..Len(Opt(ps, "NoteTags", "sets")) : LET ss == Def(ps, "NoteTags", "sets", <<>>) IN
  \A j \in 1..Len(ss) : /\ SetOK("NoteTag", ss[j])
                        /\ \A d \in ToSet(Ref(ss[j], "NoteTagDefinitionOid")) : NodeOK(sp, d, "NoteTagSharedDefinitionContainer")

XDim == <<143, 106, 138, 89, 192, 82, 160, 75, 147, 175, 175, 53, 116, 17, 165, 97>>
YDim == <<117, 159, 63, 181, 224, 4, 152, 68, 167, 238, 195, 13, 187, 90, 144, 17>>
StrokeOK(sp, id) ==
  /\ NodeOK(sp, id, "InkStrokeNode")
  /\ LET q == Ref(P(sp, id), "InkStrokeProperties")[1] IN
     /\ NodeOK(sp, q, "StrokePropertiesNode")
     /\ LET dims == Def(P(sp, q), "InkDimensions", "dims", <<>>) IN
        /\ \E i \in 1..Len(dims) : dims[i] = XDim
        /\ \E i \in 1..Len(dims) : dims[i] = YDim
        /\ Len(Def(P(sp, id), "InkPath", "path", <<>>)) % Len(dims) = 0
InkDataOK(sp, id) == NodeOK(sp, id, "InkDataNode") /\ \A x \in ToSet(Ref(P(sp, id), "InkStrokes")) : StrokeOK(sp, x)
InkOK(sp, id) == NodeOK(sp, id, "InkContainer") /\ \A x \in ToSet(Ref(P(sp, id), "InkData")) : InkDataOK(sp, x)

ImageOK(sp, id) ==
  /\ NodeOK(sp, id, "ImageNode") /\ TagsOK(sp, P(sp, id))
  /\ \A c \in ToSet(Ref(P(sp, id), "PictureContainer")) : NodeOK(sp, c, "PictureContainer") \/ NodeOK(sp, c, "XpsContainer")
  /\ \A c \in ToSet(Ref(P(sp, id), "ContentChildNodes")) : NodeOK(sp, c, "IFrameNode")
FileOK(sp, id) ==
  /\ NodeOK(sp, id, "EmbeddedFileNode") /\ TagsOK(sp, P(sp, id))
  /\ LET c == Ref(P(sp, id), "EmbeddedFileContainer")[1] IN NodeOK(sp, c, "EmbeddedFileContainer") /\ sp.objs[c].b # <<>>

INKSPACE == <<38, 0, 2, 0>>
INKBREAK == <<39, 0, 2, 0>>
\* Runs: the i-th run has the i-th style and the i-th run data.  The embedded ones, in order:
RunCount(sp, ps) == LET a == Len(Ref(ps, "TextRunFormatting")) b == Len(Def(ps, "TextRunData", "sets", <<>>)) IN IF a < b THEN a ELSE b
RunStyle(sp, ps, i) == P(sp, Ref(ps, "TextRunFormatting")[i])
RunData(ps, i) == Prop(ps, "TextRunData").s[i]
Runs(sp, ps, flag) == SelectSeq([i \in 1..RunCount(sp, ps) |-> i], LAMBDA i : Flag(RunStyle(sp, ps, i), flag))
ObjType(sp, ps, i) == Opt(RunStyle(sp, ps, i), "EmbeddedObjectType", "u32")
EmbRuns(sp, ps) == Runs(sp, ps, "TextRunIsEmbeddedObject")
\* the n-th ink run takes the n-th ink object of the paragraph
InkRuns(sp, ps) == SelectSeq(EmbRuns(sp, ps), LAMBDA i : ObjType(sp, ps, i) = <<>>)
TextOK(sp, id) ==
  /\ NodeOK(sp, id, "RichTextNode") /\ TagsOK(sp, P(sp, id))
  /\ LET ps == P(sp, id) IN
     /\ NodeOK(sp, Ref(ps, "ParagraphStyle")[1], "ParagraphStyleObject")
     /\ \A x \in ToSet(Ref(ps, "TextRunFormatting")) : NodeOK(sp, x, "ParagraphStyleObject")
     /\ \A i \in ToSet(Runs(sp, ps, "MathFormatting")) : SetOK("MathInline", RunData(ps, i))
     /\ \A i \in ToSet(EmbRuns(sp, ps)) :
          /\ SetOK("EmbeddedInk", RunData(ps, i))
          /\ ObjType(sp, ps, i) \in {<<>>, <<INKSPACE>>, <<INKBREAK>>}
          /\ ObjType(sp, ps, i) = <<INKSPACE>> => Has(RunData(ps, i), "EmbeddedInkSpaceWidth") /\ Has(RunData(ps, i), "EmbeddedInkSpaceHeight")
     /\ LET inks == Ref(ps, "TextRunDataObject") n == Len(InkRuns(sp, ps)) IN
        inks # <<>> => n <= Len(inks) /\ \A j \in 1..n : InkDataOK(sp, inks[j])

\* path: the nodes above, to exclude cyclic content
RECURSIVE ItemOK(_, _, _), ElementOK(_, _, _), TableOK(_, _, _)
ContentOK(sp, id, path) ==
  /\ Is(sp, id, KnownKinds)
  /\ LET k == sp.objs[id].k IN
     CASE k = "RichTextNode" -> TextOK(sp, id) [] k = "ImageNode" -> ImageOK(sp, id) [] k = "EmbeddedFileNode" -> FileOK(sp, id)
       [] k = "InkContainer" -> InkOK(sp, id) [] k = "TableNode" -> TableOK(sp, id, path) [] OTHER -> TRUE
ItemOK(sp, id, path) ==
  /\ id \notin path
  /\ Is(sp, id, {"OutlineGroup", "OutlineElementNode"})
  /\ IF sp.objs[id].k = "OutlineGroup"
     THEN SetOK("OutlineGroup", P(sp, id)) /\ \A x \in ToSet(Ref(P(sp, id), "ElementChildNodes")) : ItemOK(sp, x, path \cup {id})
     ELSE ElementOK(sp, id, path)
ElementOK(sp, id, path) ==
  /\ id \notin path
  /\ NodeOK(sp, id, "OutlineElementNode")
  /\ \A x \in ToSet(Ref(P(sp, id), "ElementChildNodes")) : ItemOK(sp, x, path \cup {id})
  /\ \A x \in ToSet(Ref(P(sp, id), "ContentChildNodes")) : ContentOK(sp, x, path \cup {id})
  /\ \A x \in ToSet(Ref(P(sp, id), "ListNodes")) : NodeOK(sp, x, "NumberListNode")
TableOK(sp, id, path) ==
  /\ id \notin path
  /\ NodeOK(sp, id, "TableNode") /\ TagsOK(sp, P(sp, id))
  /\ \A r \in ToSet(Ref(P(sp, id), "ElementChildNodes")) :
       /\ NodeOK(sp, r, "TableRowNode")
       /\ \A c \in ToSet(Ref(P(sp, r), "ElementChildNodes")) :
            /\ NodeOK(sp, c, "TableCellNode")
            /\ \A x \in ToSet(Ref(P(sp, c), "ElementChildNodes")) : ElementOK(sp, x, path \cup {id})
OutlineOK(sp, id) == NodeOK(sp, id, "OutlineNode") /\ \A x \in ToSet(Ref(P(sp, id), "ElementChildNodes")) : ItemOK(sp, x, {id})
PageContentOK(sp, id) ==
  /\ Is(sp, id, KnownKinds)
  /\ LET k == sp.objs[id].k IN
     CASE k = "OutlineNode" -> OutlineOK(sp, id) [] k = "ImageNode" -> ImageOK(sp, id) [] k = "EmbeddedFileNode" -> FileOK(sp, id)
       [] k = "InkContainer" -> InkOK(sp, id) [] OTHER -> TRUE
TitleOK(sp, id) == NodeOK(sp, id, "TitleNode") /\ \A x \in ToSet(Ref(P(sp, id), "ElementChildNodes")) : OutlineOK(sp, x)
RootOK(sp, r, k) == r \in DOMAIN sp.roots /\ NodeOK(sp, sp.roots[r], k)
PageOK(sp) ==
  /\ RootOK(sp, "metadata", "PageMetadata") /\ RootOK(sp, "content", "PageManifestNode")
  /\ LET m == Ref(P(sp, sp.roots.content), "ContentChildNodes") IN
     /\ m # <<>> /\ NodeOK(sp, m[1], "PageNode")
     /\ LET ps == P(sp, m[1]) t == Ref(ps, "StructureElementChildNodes") IN
        /\ t # <<>> => TitleOK(sp, t[1])
        /\ \A x \in ToSet(Ref(ps, "ElementChildNodes")) : PageContentOK(sp, x)

--------------------------------------------------------------------------
\* What is shown.
TagView(sp, ps) ==
  [completed_at |-> Opt(ps, "NoteTagCompleted", "u32"), status |-> Def(ps, "ActionItemStatus", "status", <<>>),
   definition |-> Map(LAMBDA d : LET q == P(sp, d) IN
      [label |-> Def(q, "NoteTagLabel", "str", <<>>), shape |-> Def(q, "NoteTagShape", "shape", ""),
       highlight |-> Opt(q, "NoteTagHighlightColor", "cref"), text_color |-> Opt(q, "NoteTagTextColor", "cref"),
       action |-> Def(q, "ActionItemType", "action", ""), status |-> Def(q, "NoteTagPropertyStatus", "tagbits", <<>>)],
      Ref(ps, "NoteTagDefinitionOid"))]
TagsView(sp, ps) == Map(LAMBDA x : TagView(sp, x), Def(ps, "NoteTags", "sets", <<>>))

Mul(scale, n) == ("$mul" :> <<scale, n.neg, n.mag>>)
Nat32(v) == [neg |-> FALSE, mag |-> v \o Zero4]
StrokeView(sp, id, sx, sy) ==
  LET ps == P(sp, id) q == P(sp, Ref(ps, "InkStrokeProperties")[1])
      dims == Def(q, "InkDimensions", "dims", <<>>) path == Def(ps, "InkPath", "path", <<>>)
      n == Len(path) \div Len(dims)
      ix == MinOf({i \in 1..Len(dims) : dims[i] = XDim}) iy == MinOf({i \in 1..Len(dims) : dims[i] = YDim})
  IN [path |-> [j \in 1..n |-> <<Mul(sx, path[(ix - 1) * n + j]), Mul(sy, path[(iy - 1) * n + j])>>],
      pen_tip |-> Opt(q, "InkPenTip", "u8"), transparency |-> Opt(q, "InkTransparency", "u8"),
      height |-> Def(q, "InkHeight", "f32", <<>>), width |-> Def(q, "InkWidth", "f32", <<>>), color |-> Opt(q, "InkColor", "u32")]
InkView(sp, data, sx, sy, oh, ov) ==
  LET bb == IF data = <<>> THEN <<>> ELSE Def(P(sp, data[1]), "InkBoundingBox", "u32s", <<>>)
  IN [k |-> "ink", offset_horizontal |-> oh, offset_vertical |-> ov,
      bb |-> IF Len(bb) # 4 THEN <<>>
             ELSE << <<Mul(sx, Nat32(bb[1])), Mul(sy, Nat32(bb[2])), ("$sub" :> <<sx, bb[3], bb[1]>>), ("$sub" :> <<sy, bb[4], bb[2]>>)>> >>,
      strokes |-> IF data = <<>> THEN <<>> ELSE Map(LAMBDA x : StrokeView(sp, x, sx, sy), Ref(P(sp, data[1]), "InkStrokes"))]
InkContainerView(sp, id) == LET ps == P(sp, id) IN
  InkView(sp, Ref(ps, "InkData"), Opt(ps, "InkScalingX", "f32"), Opt(ps, "InkScalingY", "f32"),
          Opt(ps, "OffsetFromParentHoriz", "f32"), Opt(ps, "OffsetFromParentVert", "f32"))

BlobOf(o) == ("$blob" :> IF o.b = <<>> THEN <<>> ELSE o.b[1])
ImageView(sp, id) == LET ps == P(sp, id) c == Ref(ps, "PictureContainer") IN
  [k |-> "image", data |-> Map(LAMBDA x : BlobOf(sp.objs[x]), c),
   extension |-> IF c = <<>> THEN <<>> ELSE Opt(P(sp, c[1]), "PictureFileExtension", "str"),
   max_width |-> Opt(ps, "LayoutMaxWidth", "f32"), max_height |-> Opt(ps, "LayoutMaxHeight", "f32"),
   alt_text |-> Opt(ps, "ImageAltText", "str"), filename |-> Opt(ps, "ImageFilename", "str"),
   alignment_in_parent |-> Align(ps, "LayoutAlignmentInParent"), alignment_self |-> Align(ps, "LayoutAlignmentSelf"),
   page_number |-> Opt(ps, "DisplayedPageNumber", "u32"), text |-> Opt(ps, "RichEditTextUnicode", "str"),
   text_language |-> Map(LAMBDA v : v \o <<0, 0>>, Opt(ps, "RichEditTextLangId", "u16")),
   width |-> Opt(ps, "PictureWidth", "f32"), height |-> Opt(ps, "PictureHeight", "f32"), hyperlink |-> Opt(ps, "WzHyperlinkUrl", "str"),
   offset_horizontal |-> Opt(ps, "OffsetFromParentHoriz", "f32"), offset_vertical |-> Opt(ps, "OffsetFromParentVert", "f32"),
   background |-> Flag(ps, "IsBackground"), tags |-> TagsView(sp, ps),
   embeds |-> Map(LAMBDA x : [type |-> Opt(P(sp, x), "ImageEmbedType", "u32"), url |-> Def(P(sp, x), "ImageEmbeddedUrl", "str", <<>>)],
                  Ref(ps, "ContentChildNodes"))]
FileView(sp, id) == LET ps == P(sp, id) IN
  [k |-> "file", filename |-> Def(ps, "EmbeddedFileName", "str", <<>>), file_type |-> Def(ps, "IRecordMedia", "ftype", "Unknown"),
   data |-> BlobOf(sp.objs[Ref(ps, "EmbeddedFileContainer")[1]]),
   max_width |-> Opt(ps, "LayoutMaxWidth", "f32"), max_height |-> Opt(ps, "LayoutMaxHeight", "f32"),
   offset_horizontal |-> Opt(ps, "OffsetFromParentHoriz", "f32"), offset_vertical |-> Opt(ps, "OffsetFromParentVert", "f32"),
   tags |-> TagsView(sp, ps)]

StyleView(ps) ==
  [charset |-> Opt(ps, "Charset", "charset"), bold |-> Flag(ps, "Bold"), italic |-> Flag(ps, "Italic"), underline |-> Flag(ps, "Underline"),
   strikethrough |-> Flag(ps, "Strikethrough"), superscript |-> Flag(ps, "Superscript"), subscript |-> Flag(ps, "Subscript"),
   font |-> Opt(ps, "Font", "str"), font_size |-> Opt(ps, "FontSize", "u16"), font_color |-> Opt(ps, "FontColor", "cref"),
   highlight |-> Opt(ps, "Highlight", "cref"), next_style |-> Opt(ps, "NextStyle", "str"), style_id |-> Opt(ps, "ParagraphStyleId", "str"),
   alignment |-> Opt(ps, "ParagraphAlignment", "palign"), space_before |-> Opt(ps, "ParagraphSpaceBefore", "f32"),
   space_after |-> Opt(ps, "ParagraphSpaceAfter", "f32"), line_spacing |-> Opt(ps, "ParagraphLineSpacingExact", "f32"),
   language |-> Opt(ps, "LanguageId", "u32"), math |-> Flag(ps, "MathFormatting"), hyperlink |-> Flag(ps, "Hyperlink")]
MathView(d) ==
  [type |-> Def(d, "MathInlineObjectType", "mtype", "SimpleText"), args |-> Def(d, "MathInlineObjectCount", "u32", Zero4),
   column |-> Opt(d, "MathInlineObjectCol", "u8"), align |-> Opt(d, "MathInlineObjectAlign", "u8"),
   char |-> Opt(d, "MathInlineObjectChar", "mchar"), char1 |-> Opt(d, "MathInlineObjectChar1", "mchar"), char2 |-> Opt(d, "MathInlineObjectChar2", "mchar")]
EmbeddedView(sp, ps, i) ==
  LET d == RunData(ps, i) ty == ObjType(sp, ps, i) IN
  CASE ty = <<INKBREAK>> -> [k |-> "ebreak"]
    [] ty = <<INKSPACE>> -> [k |-> "espace", height |-> Def(d, "EmbeddedInkSpaceHeight", "f32", <<>>), width |-> Def(d, "EmbeddedInkSpaceWidth", "f32", <<>>)]
    [] OTHER ->
       LET r == InkRuns(sp, ps) n == CHOOSE j \in 1..Len(r) : r[j] = i
           x == Opt(d, "EmbeddedInkStartX", "f32") y == Opt(d, "EmbeddedInkStartY", "f32")
           h == Opt(d, "EmbeddedInkHeight", "f32") w == Opt(d, "EmbeddedInkWidth", "f32")
       IN [k |-> "eink", bb |-> IF <<>> \in {x, y, h, w} THEN <<>> ELSE << <<x[1], y[1], w[1], h[1]>> >>,
           ink |-> InkView(sp, <<Ref(ps, "TextRunDataObject")[n]>>, <<>>, <<>>,
                           Opt(d, "EmbeddedInkOffsetHoriz", "f32"), Opt(d, "EmbeddedInkOffsetVert", "f32"))]
TextView(sp, id) ==
  LET ps == P(sp, id) st == Ref(ps, "TextRunFormatting")
      noink == Ref(ps, "TextRunDataObject") = <<>>
      shown == SelectSeq(EmbRuns(sp, ps), LAMBDA i : ~(noink /\ ObjType(sp, ps, i) = <<>>))
  IN [k |-> "text",
      text |-> IF shown # <<>> THEN <<>>
               ELSE IF Has(ps, "RichEditTextUnicode") THEN Def(ps, "RichEditTextUnicode", "str", <<>>)
               ELSE Def(ps, "TextExtendedAscii", "latin", <<>>),
      runs |-> Map(LAMBDA x : StyleView(P(sp, x)), st), indices |-> Def(ps, "TextRunIndex", "u32s", <<>>),
      style |-> StyleView(P(sp, Ref(ps, "ParagraphStyle")[1])),
      space_before |-> Def(ps, "ParagraphSpaceBefore", "f32", Zero4), space_after |-> Def(ps, "ParagraphSpaceAfter", "f32", Zero4),
      line_spacing |-> Opt(ps, "ParagraphLineSpacingExact", "f32"), alignment |-> Def(ps, "ParagraphAlignment", "palign", "Left"),
      alignment_in_parent |-> Align(ps, "LayoutAlignmentInParent"), alignment_self |-> Align(ps, "LayoutAlignmentSelf"),
      tags |-> TagsView(sp, ps),
      embedded |-> Map(LAMBDA i : EmbeddedView(sp, ps, i), shown),
      math |-> Map(LAMBDA i : MathView(RunData(ps, i)), Runs(sp, ps, "MathFormatting"))]

ListView(ps) ==
  [k |-> "list", list_font |-> Opt(ps, "ListFont", "str"), restart |-> Opt(ps, "ListRestart", "u32"),
   format |-> Def(ps, "NumberListFormat", "lfmt", <<>>), bold |-> Flag(ps, "Bold"), italic |-> Flag(ps, "Italic"),
   font |-> Opt(ps, "Font", "str"), font_size |-> Opt(ps, "FontSize", "u16"), font_color |-> Opt(ps, "FontColor", "cref")]

Unknown == [k |-> "unknown"]
RECURSIVE ItemView(_, _), TableView(_, _)
ContentView(sp, id) == LET k == sp.objs[id].k IN
  CASE k = "RichTextNode" -> TextView(sp, id) [] k = "ImageNode" -> ImageView(sp, id) [] k = "EmbeddedFileNode" -> FileView(sp, id)
    [] k = "InkContainer" -> InkContainerView(sp, id) [] k = "TableNode" -> TableView(sp, id) [] OTHER -> Unknown
ItemView(sp, id) == LET ps == P(sp, id) IN
  IF sp.objs[id].k = "OutlineGroup"
  THEN [k |-> "group", child_level |-> Def(ps, "OutlineElementChildLevel", "u8", <<>>),
        items |-> Map(LAMBDA x : ItemView(sp, x), Ref(ps, "ElementChildNodes"))]
  ELSE [k |-> "element", child_level |-> Def(ps, "OutlineElementChildLevel", "u8", <<>>), list_spacing |-> Opt(ps, "ListSpacingMu", "f32"),
        contents |-> Map(LAMBDA x : ContentView(sp, x), Ref(ps, "ContentChildNodes")),
        lists |-> Map(LAMBDA x : ListView(P(sp, x)), Ref(ps, "ListNodes")),
        children |-> Map(LAMBDA x : ItemView(sp, x), Ref(ps, "ElementChildNodes"))]
CellView(sp, id) == LET ps == P(sp, id) IN
  [background |-> Opt(ps, "CellBackgroundColor", "color"), max_width |-> Opt(ps, "LayoutMaxWidth", "f32"),
   indents |-> Def(ps, "RgOutlineIndentDistance", "indents", <<>>), contents |-> Map(LAMBDA x : ItemView(sp, x), Ref(ps, "ElementChildNodes"))]
TableView(sp, id) == LET ps == P(sp, id) IN
  [k |-> "table", rows |-> Def(ps, "RowCount", "u32", <<>>), cols |-> Def(ps, "ColumnCount", "u32", <<>>),
   cols_locked |-> Def(ps, "TableColumnsLocked", "tail", <<>>), col_widths |-> Def(ps, "TableColumnWidths", "widths", <<>>),
   borders_visible |-> Def(ps, "TableBordersVisible", "bool", TRUE),
   alignment_in_parent |-> Align(ps, "LayoutAlignmentInParent"), alignment_self |-> Align(ps, "LayoutAlignmentSelf"),
   tags |-> TagsView(sp, ps),
   contents |-> Map(LAMBDA r : Map(LAMBDA c : CellView(sp, c), Ref(P(sp, r), "ElementChildNodes")), Ref(ps, "ElementChildNodes"))]
OutlineView(sp, id) == LET ps == P(sp, id) IN
  [k |-> "outline", child_level |-> Def(ps, "OutlineElementChildLevel", "u8", <<>>), list_spacing |-> Opt(ps, "ListSpacingMu", "f32"),
   indents |-> Def(ps, "RgOutlineIndentDistance", "indents", <<>>),
   alignment_in_parent |-> Align(ps, "LayoutAlignmentInParent"), alignment_self |-> Align(ps, "LayoutAlignmentSelf"),
   max_height |-> Opt(ps, "LayoutMaxHeight", "f32"), max_width |-> Opt(ps, "LayoutMaxWidth", "f32"),
   reserved_width |-> Opt(ps, "LayoutOutlineReservedWidth", "f32"), minimum_width |-> Opt(ps, "LayoutMinimumOutlineWidth", "f32"),
   size_set_by_user |-> Flag(ps, "IsLayoutSizeSetByUser"),
   offset_horizontal |-> Opt(ps, "OffsetFromParentHoriz", "f32"), offset_vertical |-> Opt(ps, "OffsetFromParentVert", "f32"),
   items |-> Map(LAMBDA x : ItemView(sp, x), Ref(ps, "ElementChildNodes"))]
PageContentView(sp, id) == LET k == sp.objs[id].k IN
  CASE k = "OutlineNode" -> OutlineView(sp, id) [] k = "ImageNode" -> ImageView(sp, id) [] k = "EmbeddedFileNode" -> FileView(sp, id)
    [] k = "InkContainer" -> InkContainerView(sp, id) [] OTHER -> Unknown
TitleView(sp, id) == LET ps == P(sp, id) IN
  [offset_horizontal |-> Def(ps, "OffsetFromParentHoriz", "f32", <<>>), offset_vertical |-> Def(ps, "OffsetFromParentVert", "f32", <<>>),
   alignment_in_parent |-> Align(ps, "LayoutAlignmentInParent"), alignment_self |-> Align(ps, "LayoutAlignmentSelf"),
   contents |-> Map(LAMBDA x : OutlineView(sp, x), Ref(ps, "ElementChildNodes"))]

\* The leading text of an outline: the text of the first content of its first item.
LeadText(o) ==
  IF o.items = <<>> \/ o.items[1].k # "element" THEN <<>>
  ELSE LET c == o.items[1].contents IN
       IF c = <<>> \/ c[1].k # "text" \/ c[1].text = <<>> THEN <<>> ELSE <<c[1].text>>
TitleText(title, contents) ==
  LET t == IF title = <<>> \/ title[1].contents = <<>> THEN <<>> ELSE LeadText(title[1].contents[1])
      os == SelectSeq(contents, LAMBDA c : c.k = "outline" /\ LeadText(c) # <<>>)
  IN IF t # <<>> THEN t ELSE IF os = <<>> THEN <<>> ELSE LeadText(os[1])
PageView(sp) ==
  LET ps == P(sp, Ref(P(sp, sp.roots.content), "ContentChildNodes")[1])
      t == Ref(ps, "StructureElementChildNodes")
      title == IF t = <<>> THEN <<>> ELSE <<TitleView(sp, t[1])>>
      contents == Map(LAMBDA x : PageContentView(sp, x), Ref(ps, "ElementChildNodes"))
  IN [title |-> title, level |-> Def(P(sp, sp.roots.metadata), "PageLevel", "u32", Zero4), author |-> Opt(ps, "Author", "str"),
      height |-> Opt(ps, "PageHeight", "f32"), contents |-> contents, title_text |-> TitleText(title, contents)]

--------------------------------------------------------------------------
(* A section: root is the resolved root space, Sp maps the identifiers of   *)
(* the other spaces to resolved spaces.                                     *)
SeriesPages(sp, id) == Def(P(sp, id), "ChildGraphSpaceElementNodes", "spaces", <<>>)
SectionOK(root, Sp) ==
  /\ RootOK(root, "metadata", "SectionMetadata") /\ RootOK(root, "content", "SectionNode")
  /\ \A s \in ToSet(Ref(P(root, root.roots.content), "ElementChildNodes")) :
       /\ NodeOK(root, s, "PageSeriesNode")
       /\ \A x \in ToSet(SeriesPages(root, s)) : x \in DOMAIN Sp /\ PageOK(Sp[x])
\* ".one"
OneSuffix == <<46, 111, 110, 101>>
StripOne(u) == IF Len(u) >= 4 /\ SubSeq(u, Len(u) - 3, Len(u)) = OneSuffix THEN SubSeq(u, 1, Len(u) - 4) ELSE u
SectionView(root, Sp, fname) ==
  LET m == P(root, root.roots.metadata) IN
  [name |-> StripOne(Def(m, "SectionDisplayName", "str", fname)), color |-> Opt(m, "SectionColor", "color"),
   series |-> Map(LAMBDA s : Map(LAMBDA x : PageView(Sp[x]), SeriesPages(root, s)), Ref(P(root, root.roots.content), "ElementChildNodes"))]
SectionExpect(root, Sp, fname) ==
  LET r == Resolved(root) S == TLCEval([x \in DOMAIN Sp |-> Resolved(Sp[x])])
  IN IF SectionOK(r, S) THEN [ok |-> TRUE, v |-> SectionView(r, S, fname)] ELSE [ok |-> FALSE]
============================================================================
