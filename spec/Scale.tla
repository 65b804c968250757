-------------------------------- MODULE Scale --------------------------------
(* Long lists and long values: every list of the document model, with each  *)
(* of a set of lengths (around powers of two and the widths of the format), *)
(* all other parts small.  Every element is distinguishable from the others.*)
EXTENDS Base
CONSTANTS Part     \* "tree", "runs", "tags", "ink", "pages", "blobs" (lists of those), "long" (strings, bytes), "deep" (nesting), "revs" (histories)
RECURSIVE Merge(_)
Merge(q) == IF q = <<>> THEN None ELSE IF Len(q) = 1 THEN q[1] ELSE LET m == Len(q) \div 2 IN Merge(SubSeq(q, 1, m)) @@ Merge(SubSeq(q, m + 1, Len(q)))
N(x, j) == x \o ToString(j)
Ns(x, m) == [j \in 1..m |-> N(x, j)]
Each(m, F1(_)) == Merge([j \in 1..m |-> F1(j)])
Txt(j) == <<65 + (j % 26), 48 + ((j \div 26) % 60)>>
Text(x, u) == x :> Node("RichTextNode", <<PR("ParagraphStyle", "S"), PS("RichEditTextUnicode", u)>>)
Element(x, more) == x :> Node("OutlineElementNode", ElementRefs("") \o more)
Leaf(j) == Element(N("E", j), <<PRs("ContentChildNodes", <<N("X", j)>>)>>) @@ Text(N("X", j), Txt(j))
Leaves(m) == Each(m, Leaf)
Outline(x, ks) == x :> Node("OutlineNode", <<PRs("ElementChildNodes", ks)>>)
Common == ("M" :> Node("PageManifestNode", <<PRs("ContentChildNodes", <<"P">>)>>)) @@ ("N" :> Node("PageMetadata", <<>>)) @@ ("a" :> Obj("AuthorContainer", <<>>)) @@ ("S" :> Node("ParagraphStyleObject", <<>>))
PageOf(xs, more) == [roots |-> [content |-> "M", metadata |-> "N"], objs |-> TLCEval(Common @@ ("P" :> Node("PageNode", <<PRs("ElementChildNodes", xs)>>)) @@ more)]
RootOf(series, objs) == [roots |-> [content |-> "SN", metadata |-> "SM"], objs |-> TLCEval(("SN" :> Node("SectionNode", <<PRs("ElementChildNodes", series)>>)) @@ ("SM" :> Node("SectionMetadata", <<>>)) @@ objs)]
Series(x, ps) == x :> Node("PageSeriesNode", <<PSp("ChildGraphSpaceElementNodes", ps)>>)
OnePg(p) == ("R" :> RootOf(<<"SS">>, Series("SS", <<"p1">>))) @@ ("p1" :> p)
Paragraph(ps) == OnePg(PageOf(<<"O">>, Outline("O", <<"E">>) @@ Element("E", <<PRs("ContentChildNodes", <<"X">>)>>) @@ ps))
InElement(xs, ps) == OnePg(PageOf(<<"O">>, Outline("O", <<"E">>) @@ Element("E", <<PRs("ContentChildNodes", xs)>>) @@ ps))
Rich(more) == "X" :> Node("RichTextNode", <<PR("ParagraphStyle", "S")>> \o more)
Stroke(x, path, p) == x :> Node("InkStrokeNode", <<PV("InkPath", path), PR("InkStrokeProperties", p)>>)
Props2(x) == x :> Node("StrokePropertiesNode", <<PV("InkDimensions", DimBytes(XDim, S0) \o DimBytes(YDim, S0))>>)
InkOf(x, ks) == x :> Node("InkDataNode", <<PRs("InkStrokes", ks)>>)
MbPath(q) == MbInt(FALSE, Len(q)) \o Concat(q)
SmallPage(j) == PageOf(<<"O">>, Outline("O", <<N("E", j)>>) @@ Leaf(j))
Wides == CASE Part = "tree" -> << <<"outlines", 260>>, <<"items", 600>>, <<"groups", 260>>, <<"kids", 600>>, <<"contents", 600>>, <<"lists", 300>>, <<"rows", 260>>, <<"cells", 260>>,
            <<"cellitems", 260>>, <<"iframes", 260>>, <<"indents", 130>>, <<"widths", 300>>, <<"locks", 600>> >>
  [] Part = "runs" -> << <<"runs", 600>>, <<"maths", 130>>, <<"spaces", 260>>, <<"inks", 130>> >>
  [] Part = "tags" -> << <<"tags", 260>> >>
  [] Part = "ink" -> << <<"strokes", 260>>, <<"points", 1030>>, <<"dims", 260>> >>
  [] Part = "pages" -> << <<"pages", 130>>, <<"series", 130>>, <<"titles", 130>>, <<"titleitems", 130>> >>
  [] OTHER -> << <<"files", 260>>, <<"images", 260>> >>
WideParts == {"tree", "runs", "tags", "ink", "pages", "blobs"}
WideLens == <<0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 19, 20, 21, 22, 24, 25, 26, 30, 31, 32, 33, 34, 40, 48, 50, 51, 60, 63, 64, 65, 70, 80, 90, 99, 100, 101, 110, 120, 126, 127, 128, 129, 130,
              150, 199, 200, 201, 250, 254, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513, 600, 800, 1000, 1022, 1023, 1024, 1025, 1030>>
Longs == <<"text", "title", "alt", "url", "label", "font", "name", "ascii", "blob", "picture">>
LongLens == <<0, 1, 2, 3, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 40000>>
BlobLens == LongLens \o <<65534, 65535, 65536, 65537, 131071, 131072, 262143, 262144, 524287, 524288, 1048575, 1048576, 1048577, 2097151, 2097152, 3000000>>
Deeps == <<"elements", "outlinegroups", "mixed", "tables">>
Total == CASE Part \in WideParts -> Len(Wides) * Len(WideLens) [] Part = "long" -> Len(Longs) * Len(BlobLens) [] Part = "deep" -> 4 * 40 [] OTHER -> 4 * 60
\* <<kind, length>>, length -1: not part of the enumeration
Spec1(i) == CASE Part \in WideParts -> LET k == Wides[(i % Len(Wides)) + 1] m == WideLens[(i \div Len(Wides)) + 1] IN <<k[1], IF m > k[2] THEN -1 ELSE m>>
  [] Part = "long" -> LET k == Longs[(i % Len(Longs)) + 1] m == BlobLens[(i \div Len(Longs)) + 1] IN <<k, IF (i \div Len(Longs)) + 1 > Len(LongLens) /\ k \notin {"blob", "picture"} THEN -1 ELSE m>>
  [] Part = "deep" -> <<Deeps[(i % 4) + 1], IF i % 4 = 3 THEN 1 + ((i \div 4) % 14) ELSE 1 + (i \div 4)>>
  [] OTHER -> <<"revs" \o ToString(i % 4), 1 + (i \div 4)>>
Str(m) == TLCEval([j \in 1..m |-> 65 + ((j * 7 + j \div 256) % 57)])
\* the longest strings are told by their ends and their length
RECURSIVE NestE(_, _), NestG(_, _), NestX(_, _), NestT(_, _)
NestE(j, m) == Element(N("E", j), <<PRs("ContentChildNodes", <<N("X", j)>>)>> \o (IF j < m THEN <<PRs("ElementChildNodes", <<N("E", j + 1)>>)>> ELSE <<>>)) @@ Text(N("X", j), Txt(j)) @@ (IF j < m THEN NestE(j + 1, m) ELSE None)
NestG(j, m) == IF j = m THEN Leaf(j) ELSE (N("G", j) :> Node("OutlineGroup", <<PRs("ElementChildNodes", <<N("E", j), IF j = m - 1 THEN N("E", m) ELSE N("G", j + 1)>>)>>)) @@ Leaf(j) @@ NestG(j + 1, m)
MixName(j) == IF j % 2 = 0 THEN N("G", j) ELSE N("E", j)
NestX(j, m) == (IF j % 2 = 0 THEN N("G", j) :> Node("OutlineGroup", <<PRs("ElementChildNodes", IF j < m THEN <<MixName(j + 1)>> ELSE <<>>)>>)
               ELSE Element(N("E", j), <<PRs("ContentChildNodes", <<N("X", j)>>), PRs("ElementChildNodes", IF j < m THEN <<MixName(j + 1)>> ELSE <<>>)>>) @@ Text(N("X", j), Txt(j))) @@ (IF j < m THEN NestX(j + 1, m) ELSE None)
NestT(j, m) == (N("B", j) :> Node("TableNode", <<PRs("ElementChildNodes", <<N("W", j)>>)>>)) @@ (N("W", j) :> Node("TableRowNode", <<PRs("ElementChildNodes", <<N("C", j)>>)>>)) @@
               (N("C", j) :> Node("TableCellNode", <<PRs("ElementChildNodes", <<N("E", j)>>)>>)) @@ Text(N("X", j), Txt(j)) @@
               Element(N("E", j), <<PRs("ContentChildNodes", IF j < m THEN <<N("X", j), N("B", j + 1)>> ELSE <<N("X", j)>>)>>) @@ (IF j < m THEN NestT(j + 1, m) ELSE None)
Tag(d) == Attrs("NoteTag", S0, 0, 1) \o <<PR("NoteTagDefinitionOid", d)>>
SpWide(k, m) ==
  CASE k = "pages" -> Each(m, LAMBDA j : N("p", j) :> SmallPage(j)) @@ ("R" :> RootOf(<<"SS">>, Series("SS", Ns("p", m))))
    [] k = "series" -> Each(m, LAMBDA j : N("p", j) :> SmallPage(j)) @@ ("R" :> RootOf(Ns("s", m), Each(m, LAMBDA j : Series(N("s", j), IF j % 3 = 0 THEN <<>> ELSE <<N("p", j)>>))))
    [] k = "outlines" -> OnePg(PageOf(Ns("O", m), Leaves(m) @@ Each(m, LAMBDA j : Outline(N("O", j), <<N("E", j)>>))))
    [] k = "items" -> OnePg(PageOf(<<"O">>, Leaves(m) @@ Outline("O", Ns("E", m))))
    [] k = "groups" -> OnePg(PageOf(<<"O">>, Leaves(m) @@ Outline("O", <<"G">>) @@ ("G" :> Node("OutlineGroup", <<PRs("ElementChildNodes", Ns("E", m))>>))))
    [] k = "kids" -> OnePg(PageOf(<<"O">>, Leaves(m) @@ Outline("O", <<"E">>) @@ Element("E", <<PRs("ElementChildNodes", Ns("E", m))>>)))
    [] k = "contents" -> InElement(Ns("X", m), Each(m, LAMBDA j : Text(N("X", j), Txt(j))))
    [] k = "lists" -> OnePg(PageOf(<<"O">>, Outline("O", <<"E">>) @@ Element("E", <<PRs("ListNodes", Ns("L", m))>>) @@ Each(m, LAMBDA j : N("L", j) :> Node("NumberListNode", <<PI("ListRestart", LE4(j))>>))))
    [] k = "rows" -> InElement(<<"B">>, Leaves(m) @@ ("B" :> Node("TableNode", <<PRs("ElementChildNodes", Ns("W", m))>>)) @@ Each(m, LAMBDA j : N("W", j) :> Node("TableRowNode", <<PRs("ElementChildNodes", <<N("C", j)>>)>>)) @@
                       Each(m, LAMBDA j : N("C", j) :> Node("TableCellNode", <<PRs("ElementChildNodes", <<N("E", j)>>)>>)))
    [] k = "cells" -> InElement(<<"B">>, Leaves(m) @@ ("B" :> Node("TableNode", <<PRs("ElementChildNodes", <<"W">>)>>)) @@ ("W" :> Node("TableRowNode", <<PRs("ElementChildNodes", Ns("C", m))>>)) @@
                       Each(m, LAMBDA j : N("C", j) :> Node("TableCellNode", <<PRs("ElementChildNodes", <<N("E", j)>>)>>)))
    [] k = "cellitems" -> InElement(<<"B">>, Leaves(m) @@ ("B" :> Node("TableNode", <<PRs("ElementChildNodes", <<"W">>)>>)) @@ ("W" :> Node("TableRowNode", <<PRs("ElementChildNodes", <<"C">>)>>)) @@
                       ("C" :> Node("TableCellNode", <<PRs("ElementChildNodes", Ns("E", m))>>)))
    [] k = "tags" -> Paragraph(Rich(<<PS("RichEditTextUnicode", <<65>>), PSets("NoteTags", [j \in 1..m |-> Tag(N("D", j))])>>) @@
                       Each(m, LAMBDA j : N("D", j) :> LET o == Node("NoteTagSharedDefinitionContainer", <<>>) IN [o EXCEPT !.p = Without(@, "NoteTagLabel") \o <<PS("NoteTagLabel", Txt(j))>>]))
    [] k = "runs" -> Paragraph(Rich(<<PS("RichEditTextUnicode", Str(m)), PRs("TextRunFormatting", Ns("s", m)), PV("TextRunIndex", Concat([j \in 1..(IF m = 0 THEN 0 ELSE m - 1) |-> LE4(j)]))>>) @@
                       Each(m, LAMBDA j : N("s", j) :> Node("ParagraphStyleObject", <<PI("FontSize", <<j % 256, j \div 256>>)>>)))
    [] k = "maths" -> Paragraph(Rich(<<PS("RichEditTextUnicode", Str(m)), PRs("TextRunFormatting", Ns("s", m)), PV("TextRunIndex", Concat([j \in 1..(IF m = 0 THEN 0 ELSE m - 1) |-> LE4(j)])),
                       PSets("TextRunData", [j \in 1..m |-> IF j % 3 = 0 THEN <<>> ELSE Without(Attrs("MathInline", S0, 0, 1), "MathInlineObjectCol") \o <<PI("MathInlineObjectCol", <<j>>)>>])>>) @@
                       Each(m, LAMBDA j : N("s", j) :> Node("ParagraphStyleObject", <<PB("MathFormatting", j % 3 # 0)>>)))
    [] k = "spaces" -> Paragraph(Rich(<<PRs("TextRunFormatting", [j \in 1..m |-> "s"]), PRs("TextRunDataObject", <<>>),
                       PSets("TextRunData", [j \in 1..m |-> <<PI("EmbeddedInkSpaceWidth", <<j % 256, j \div 256, 1, 64>>), PI("EmbeddedInkSpaceHeight", <<0, 0, 0, 65>>)>>])>>) @@
                       ("s" :> Node("ParagraphStyleObject", <<PB("TextRunIsEmbeddedObject", TRUE), PI("EmbeddedObjectType", INKSPACE)>>)))
    [] k = "inks" -> Paragraph(Rich(<<PRs("TextRunFormatting", [j \in 1..m |-> IF j % 4 = 3 THEN "l" ELSE IF j % 4 = 1 THEN "w" ELSE "s"]), PRs("TextRunDataObject", SelectSeq([j \in 1..m |-> IF j % 4 \in {1, 3} THEN "" ELSE N("J", j)], LAMBDA x : x # "")),
                       PSets("TextRunData", [j \in 1..m |-> IF j % 4 = 1 THEN <<PI("EmbeddedInkSpaceWidth", <<j % 256, j \div 256, 1, 64>>), PI("EmbeddedInkSpaceHeight", <<0, 0, 0, 65>>)>> ELSE <<>>])>>) @@
                       ("s" :> Node("ParagraphStyleObject", <<PB("TextRunIsEmbeddedObject", TRUE)>>)) @@ ("l" :> Node("ParagraphStyleObject", <<PB("TextRunIsEmbeddedObject", TRUE), PI("EmbeddedObjectType", INKBREAK)>>)) @@
                       ("w" :> Node("ParagraphStyleObject", <<PB("TextRunIsEmbeddedObject", TRUE), PI("EmbeddedObjectType", INKSPACE)>>)) @@
                       Props2("q") @@ Each(m, LAMBDA j : InkOf(N("J", j), <<N("k", j)>>) @@ Stroke(N("k", j), MbPath(<<MbInt(FALSE, j), MbInt(TRUE, j)>>), "q")))
    [] k = "strokes" -> InElement(<<"K">>, ("K" :> Node("InkContainer", <<PR("InkData", "J")>>)) @@ InkOf("J", Ns("k", m)) @@ Props2("q") @@ Each(m, LAMBDA j : Stroke(N("k", j), MbPath(<<MbInt(FALSE, j), MbInt(TRUE, j)>>), "q")))
    [] k = "points" -> InElement(<<"K">>, ("K" :> Node("InkContainer", <<PR("InkData", "J")>>)) @@ InkOf("J", <<"k">>) @@ Props2("q") @@ Stroke("k", MbPath([j \in 1..(2 * m) |-> MbInt(j % 3 = 0, j * 5)]), "q"))
    [] k = "dims" -> InElement(<<"K">>, ("K" :> Node("InkContainer", <<PR("InkData", "J")>>)) @@ InkOf("J", <<"k">>) @@
                       ("q" :> Node("StrokePropertiesNode", <<PV("InkDimensions", DimBytes(YDim, S0) \o Concat([j \in 1..m |-> DimBytes([t \in 1..16 |-> (j + t) % 256], S0)]) \o DimBytes(XDim, S0))>>)) @@
                       Stroke("k", MbPath([j \in 1..(2 * (m + 2)) |-> MbInt(j % 3 = 0, j * 5)]), "q"))
    [] k = "iframes" -> InElement(<<"I">>, ("I" :> Node("ImageNode", <<PRs("ContentChildNodes", Ns("r", m))>>)) @@ Each(m, LAMBDA j : N("r", j) :> LET o == Node("IFrameNode", <<>>) IN [o EXCEPT !.p = Without(@, "ImageEmbeddedUrl") \o <<PS("ImageEmbeddedUrl", Txt(j))>>]))
    [] k = "files" -> OnePg(PageOf(Ns("F", m), Each(m, LAMBDA j : (N("F", j) :> Node("EmbeddedFileNode", <<PR("EmbeddedFileContainer", N("c", j))>>)) @@ (N("c", j) :> ObjB("EmbeddedFileContainer", <<>>, <<N("b", j)>>)))))
    [] k = "images" -> OnePg(PageOf(Ns("I", m), Each(m, LAMBDA j : (N("I", j) :> Node("ImageNode", <<PR("PictureContainer", N("c", j))>>)) @@ (N("c", j) :> ObjB("PictureContainer", <<>>, <<N("b", j)>>)))))
    [] k = "titles" -> OnePg([PageOf(<<>>, ("T" :> Node("TitleNode", <<PRs("ElementChildNodes", Ns("O", m))>>)) @@ Leaves(m) @@ Each(m, LAMBDA j : Outline(N("O", j), <<N("E", j)>>)))
                         EXCEPT !.objs["P"] = Node("PageNode", <<PRs("StructureElementChildNodes", <<"T">>)>>)])
    [] k = "titleitems" -> OnePg([PageOf(<<>>, ("T" :> Node("TitleNode", <<PRs("ElementChildNodes", <<"O">>)>>)) @@ Leaves(m) @@ Outline("O", Ns("E", m)))
                         EXCEPT !.objs["P"] = Node("PageNode", <<PRs("StructureElementChildNodes", <<"T">>)>>)])
    [] k = "indents" -> OnePg(PageOf(<<"O">>, "O" :> LET o == Node("OutlineNode", <<>>) IN [o EXCEPT !.p = Without(@, "RgOutlineIndentDistance") \o <<PV("RgOutlineIndentDistance", <<m, 0, 0, 0>> \o Concat([j \in 1..m |-> <<j % 256, 0, 0, 64>>]))>>]))
    [] k = "widths" -> InElement(<<"B">>, "B" :> Node("TableNode", <<PRs("ElementChildNodes", <<>>), PV("TableColumnWidths", <<m % 256>> \o Concat([j \in 1..m |-> <<j % 256, j \div 256, 0, 64>>]))>>))
    [] OTHER -> InElement(<<"B">>, "B" :> Node("TableNode", <<PRs("ElementChildNodes", <<>>), PV("TableColumnsLocked", [j \in 1..(m + 1) |-> (j * 3) % 256])>>))
SpLong(k, m) ==
  CASE k = "text" -> Paragraph(Rich(<<PS("RichEditTextUnicode", Str(m))>>))
    [] k = "ascii" -> Paragraph(Rich(<<PV("TextExtendedAscii", Str(m))>>))
    [] k = "title" -> OnePg([PageOf(<<>>, ("T" :> Node("TitleNode", <<PRs("ElementChildNodes", <<"O">>)>>)) @@ Outline("O", <<"E">>) @@ Element("E", <<PRs("ContentChildNodes", <<"X">>)>>) @@ Text("X", Str(m)))
                         EXCEPT !.objs["P"] = Node("PageNode", <<PRs("StructureElementChildNodes", <<"T">>)>>)])
    [] k = "alt" -> InElement(<<"I">>, "I" :> Node("ImageNode", <<PS("ImageAltText", Str(m))>>))
    [] k = "url" -> InElement(<<"I">>, "I" :> Node("ImageNode", <<PS("WzHyperlinkUrl", Str(m))>>))
    [] k = "label" -> Paragraph(Rich(<<PS("RichEditTextUnicode", <<65>>), PSets("NoteTags", <<Tag("D")>>)>>) @@ ("D" :> LET o == Node("NoteTagSharedDefinitionContainer", <<>>) IN [o EXCEPT !.p = Without(@, "NoteTagLabel") \o <<PS("NoteTagLabel", Str(m))>>]))
    [] k = "font" -> [Paragraph(Rich(<<PS("RichEditTextUnicode", <<65>>)>>)) EXCEPT !["p1"].objs["S"] = Node("ParagraphStyleObject", <<PS("Font", Str(m))>>)]
    [] k = "name" -> [Paragraph(Rich(<<PS("RichEditTextUnicode", <<65>>)>>)) EXCEPT !["R"].objs["SM"] = Node("SectionMetadata", <<PS("SectionDisplayName", Str(m))>>)]
    [] k = "blob" -> InElement(<<"F">>, ("F" :> Node("EmbeddedFileNode", <<PR("EmbeddedFileContainer", "c")>>)) @@ ("c" :> ObjB("EmbeddedFileContainer", <<>>, <<"b0">>)))
    [] OTHER -> InElement(<<"I">>, ("I" :> Node("ImageNode", <<PR("PictureContainer", "c")>>)) @@ ("c" :> ObjB("PictureContainer", <<>>, <<"b0">>)))
SpDeep(k, m) ==
  CASE k = "elements" -> OnePg(PageOf(<<"O">>, Outline("O", <<"E1">>) @@ NestE(1, m)))
    [] k = "outlinegroups" -> OnePg(PageOf(<<"O">>, Outline("O", <<IF m = 1 THEN "E1" ELSE "G1">>) @@ NestG(1, m)))
    [] k = "mixed" -> OnePg(PageOf(<<"O">>, Outline("O", <<"E1">>) @@ NestX(1, m)))
    [] OTHER -> InElement(<<"B1">>, NestT(1, m))
\* m revisions; revision k writes text k and rewrites text 0 (kinds 1, 3) and the outline
RevTexts(m) == Text("X0", Txt(m)) @@ Each(m, LAMBDA j : Text(N("X", j), Txt(j)))
SpRevs(m) == InElement(<<"X0">> \o Ns("X", m), RevTexts(m))
RevsDoc(q, m) ==
  LET Sp == SpRevs(m) base == [Sp["p1"] EXCEPT !.objs = [x \in DOMAIN @ \ {N("X", j) : j \in 2..m} |-> IF x = "X0" THEN Text("X0", Txt(1))["X0"] ELSE IF x = "E" THEN Element("E", <<>>)["E"] ELSE @[x]]] IN
  [BaseDoc(Sp) EXCEPT !.spaces["p1"] = [via |-> <<"", "map", "serial", "direct">>[q + 1], base |-> (IF q % 2 = 0 THEN "" ELSE "direct"),
     revs |-> <<[base EXCEPT !.objs = IF m = 1 THEN Sp["p1"].objs ELSE @]>> \o [j \in 1..(m - 1) |-> [roots |-> IF j % 5 = 0 THEN base.roots ELSE None,
        objs |-> Text(N("X", j + 1), Txt(j + 1)) @@ Text("X0", Txt(j + 1)) @@ (IF j = m - 1 THEN ("E" :> Sp["p1"].objs["E"]) ELSE None)]]]]
BlobsFor(k, m) == IF k \in {"files", "images"} THEN Each(m, LAMBDA j : N("b", j) :> [b |-> <<j % 256, j \div 256, j % 7>>]) ELSE IF k \in {"blob", "picture"} THEN "b0" :> [n |-> m, s |-> 3] ELSE None
VARIABLE n
Init == n = Shard
Next == n + Shards < Min2(Limit, Total) /\ n' = n + Shards
Active == n < Min2(Limit, Total)
SpOf(c) == CASE Part \in WideParts -> SpWide(c[1], c[2]) [] Part = "long" -> SpLong(c[1], c[2]) [] Part = "deep" -> SpDeep(c[1], c[2]) [] OTHER -> SpRevs(c[2])
Encs == <<NoLayout, Layout(Seed(n + 1, VSeed))>>
Emitted == Active => LET c == Spec1(Idx(n, Total)) IN c[2] >= 0 =>
  LET Sp == TLCEval(SpOf(c)) d == IF Part = "revs" THEN RevsDoc(Idx(n, Total) % 4, c[2]) ELSE [BaseDoc(Sp) EXCEPT !.blobs = BlobsFor(c[1], c[2])] IN
  EmitCase(SectionCase(<<"scale", c>>, d, Encs, Expect(Sp, Fname)))
==============================================================================
