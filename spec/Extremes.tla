------------------------------ MODULE Extremes ------------------------------
(* P04: documents at and beyond the limits: chains of every kind of nesting *)
(* (deep), long lists of every kind (wide), things that contain themselves  *)
(* or one another more than once (loops).  Long lists are shown; whatever   *)
(* is nested too deep for the parser, it returns.                           *)
(* The documents are templates: "%" and "^" stand for a number and the next.*)
EXTENDS Toc
CONSTANTS Part
Leaf(e, x) == (e :> Node("OutlineElementNode", ElementRefs("") \o <<PRs("ContentChildNodes", <<x>>)>>)) @@ (x :> Node("RichTextNode", <<PR("ParagraphStyle", "S"), PS("RichEditTextUnicode", <<65>>)>>))
Element(e, more) == e :> Node("OutlineElementNode", ElementRefs("") \o more)
Common == ("M" :> Node("PageManifestNode", <<PRs("ContentChildNodes", <<"P">>)>>)) @@ ("N" :> Node("PageMetadata", <<>>)) @@ ("a" :> Obj("AuthorContainer", <<>>)) @@ ("S" :> Node("ParagraphStyleObject", <<>>))
Names(p, m) == <<[all |-> <<p, m>>]>>
Times(m, objs) == [n |-> m, objs |-> objs]
PageRev(objs, many) == [roots |-> [content |-> "M", metadata |-> "N"], objs |-> objs @@ Common, many |-> many]
RootRev(series, objs, many) == [roots |-> [content |-> "SN", metadata |-> "SM"], objs |-> objs @@ ("SN" :> Node("SectionNode", <<PRs("ElementChildNodes", series)>>)) @@ ("SM" :> Node("SectionMetadata", <<>>)), many |-> many]
Series(x, ps) == x :> Node("PageSeriesNode", <<PSp("ChildGraphSpaceElementNodes", ps)>>)
DocOf(root, page, l) == [schema |-> "section", root |-> "R", blobs |-> [b1 |-> [n |-> 9, s |-> 2]], long |-> l, spaces |-> [R |-> [revs |-> <<root>>], p1 |-> page]]
PlainRoot == RootRev(<<"SS">>, Series("SS", <<"p1">>), <<>>)
OnePg(objs, many) == DocOf(PlainRoot, [revs |-> <<PageRev(objs, many)>>], [on |-> 1])
PageWith(xs) == "P" :> Node("PageNode", <<PRs("ElementChildNodes", xs)>>)
InPage(xs, objs, many) == OnePg(PageWith(<<"O">>) @@ ("O" :> Node("OutlineNode", <<PRs("ElementChildNodes", xs)>>)) @@ objs, many)
InElement(xs, objs, many) == InPage(<<"E">>, Element("E", <<PRs("ContentChildNodes", xs)>>) @@ objs, many)
Rich(more, objs, many) == InElement(<<"X">>, ("X" :> Node("RichTextNode", <<PR("ParagraphStyle", "S")>> \o more)) @@ objs, many)
End(p, m) == p \o ToString(m + 1)
Group(x, ks) == x :> Node("OutlineGroup", <<PRs("ElementChildNodes", ks)>>)
Nest(n, t, m) == [n |-> n, t |-> t, nest |-> m]
Ink(x) == (x :> Node("InkContainer", <<PR("InkData", "J")>>))
StrokeProps == ("q" :> Node("StrokePropertiesNode", <<PV("InkDimensions", DimBytes(XDim, S0) \o DimBytes(YDim, S0))>>))
Tag(d) == Attrs("NoteTag", S0, 0, 1) \o <<PR("NoteTagDefinitionOid", d)>>
Toc1(objs, many) == [schema |-> "toc", root |-> "R", blobs |-> <<>>, long |-> [on |-> 1], spaces |-> [R |-> [revs |-> <<[roots |-> [content |-> "top"], objs |-> objs, many |-> many]>>]]]
TocRoot(xs) == "top" :> Obj("TocContainer", <<PRs("TocChildren", xs)>>)
Box(x, xs) == x :> Obj("TocContainer", <<PRs("TocChildren", xs)>>)
Ent(x, u) == x :> Obj("TocContainer", <<PI("NotebookElementOrderingId", LE4(1)), PS("FolderChildFilename", u)>>)
OneToc == <<46, 111, 110, 101, 116, 111, 99, 50>>
DotOne == <<46, 111, 110, 101>>
a1 == <<65>> \o DotOne   dd == <<100>>   ee == <<101>>
Files(dc) == << [p |-> a1, t |-> "file", doc |-> SecDoc(1)], [p |-> <<110>> \o OneToc, t |-> "file", doc |-> dc] >>
Dirs(us) == Toc1(TocRoot([j \in 1..Len(us) |-> "D" \o ToString(j)]) @@ FoldLeft(LAMBDA f, j : f @@ Ent("D" \o ToString(j), us[j]), [x \in {} |-> 0], [j \in 1..Len(us) |-> j]), <<>>)
Deeps == <<"kids", "groups", "mixed", "tables", "set", "sets", "toc", "dirs", "revs", "directrevs", "titlekids">>
DeepLens == <<1, 20, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 500, 1000, 2000, 5000, 10000, 30000>>
Wides == <<"outlines", "items", "kids", "groups", "contents", "rows", "cells", "cellitems", "lists", "iframes", "runs", "tags", "strokes", "points", "dims", "pages", "series", "titles", "blobs", "toc", "styles", "extra", "space">>
WideLens == <<1000, 3000, 10000, 30000>>
Loops == <<"kid", "group", "table", "toc", "link", "linkout", "links", "mutual", "kid2", "group2", "table2", "series", "page", "base", "content">>
Dags == <<"kids", "groups", "tables", "toc", "dirs">>
DagLens == <<4, 8, 40>>
Total == CASE Part = "deep" -> Len(Deeps) * Len(DeepLens) [] Part = "wide" -> Len(Wides) * Len(WideLens) [] Part = "dag" -> Len(Dags) * Len(DagLens) [] OTHER -> Len(Loops)
Section(id, d, e) == [op |-> "section", id |-> id, fname |-> Fname, doc |-> d, encs |-> <<[pack |-> ""]>>, expect |-> e]
Book(id, tree, e) == [op |-> "notebook", id |-> id, expect |-> e, open |-> <<110>> \o OneToc, tree |-> tree]
AnyEnd == [any |-> TRUE]
Fine == [ok |-> TRUE]
No == [ok |-> FALSE]
Deep1(k, m) == LET id == <<"deep", k, m>> IN
  CASE k = "kids" -> Section(id, InPage(<<"E1">>, Leaf(End("E", m), "X"), <<Times(m, Element("E%", <<PRs("ElementChildNodes", <<"E^">>)>>))>>), AnyEnd)
    [] k = "titlekids" -> Section(id, OnePg(("P" :> Node("PageNode", <<PRs("StructureElementChildNodes", <<"T">>)>>)) @@ ("T" :> Node("TitleNode", <<PRs("ElementChildNodes", <<"O">>)>>)) @@
                            ("O" :> Node("OutlineNode", <<PRs("ElementChildNodes", <<"E1">>)>>)) @@ Leaf(End("E", m), "X"), <<Times(m, Element("E%", <<PRs("ElementChildNodes", <<"E^">>)>>))>>), AnyEnd)
    [] k = "groups" -> Section(id, InPage(<<"G1">>, Group(End("G", m), <<>>), <<Times(m, Group("G%", <<"G^">>))>>), AnyEnd)
    [] k = "mixed" -> Section(id, InPage(<<"G1">>, Group(End("G", m), <<>>), <<Times(m, Group("G%", <<"E%">>) @@ Element("E%", <<PRs("ElementChildNodes", <<"G^">>)>>))>>), AnyEnd)
    [] k = "tables" -> Section(id, InElement(<<"B1">>, End("B", m) :> Node("TableNode", <<PRs("ElementChildNodes", <<>>)>>), <<Times(m, ("B%" :> Node("TableNode", <<PRs("ElementChildNodes", <<"W%">>)>>)) @@
                         ("W%" :> Node("TableRowNode", <<PRs("ElementChildNodes", <<"C%">>)>>)) @@ ("C%" :> Node("TableCellNode", <<PRs("ElementChildNodes", <<"E%">>)>>)) @@ Element("E%", <<PRs("ContentChildNodes", <<"B^">>)>>))>>), AnyEnd)
    [] k = "set" -> Section(id, Rich(<<PS("RichEditTextUnicode", <<65>>), Nest("0x00003A11", 17, m)>>, [x \in {} |-> 0], <<>>), AnyEnd)
    [] k = "sets" -> Section(id, Rich(<<PS("RichEditTextUnicode", <<65>>), Nest("NoteTags", 16, m)>>, [x \in {} |-> 0], <<>>), AnyEnd)
    [] k = "toc" -> Book(id, <<[p |-> a1, t |-> "file", doc |-> SecDoc(1)], [p |-> <<110>> \o OneToc, t |-> "file", doc |-> Toc1(TocRoot(<<"B1">>) @@ Ent(End("B", m), a1), <<Times(m, Box("B%", <<"B^">>))>>)]>>, AnyEnd)
    [] k = "dirs" -> Book(id, Files(Dirs(<<dd>>)) \o <<[p |-> <<>>, t |-> "deep", name |-> dd, n |-> IF m > 1500 THEN 1500 ELSE m, files |-> Files(Dirs(<<dd, a1>>))]>>, AnyEnd)
    [] OTHER -> Section(id, DocOf(PlainRoot, [base |-> IF k = "revs" THEN "" ELSE "direct", revs |-> <<PageRev(PageWith(<<"O">>) @@ ("O" :> Node("OutlineNode", <<PRs("ElementChildNodes", <<"E1">>)>>)) @@ Leaf("E1", "X"), <<>>),
                            [roots |-> [content |-> "M", metadata |-> "N"], objs |-> Leaf("E1", "X")]>>], [revs |-> [p1 |-> m]]), Fine)
Wide1(k, m) == LET id == <<"wide", k, m>> sec(d) == Section(id, d, Fine) none == [x \in {} |-> 0] IN
  CASE k = "outlines" -> sec(OnePg(PageWith(Names("O", m)), <<Times(m, "O%" :> Node("OutlineNode", <<PRs("ElementChildNodes", <<>>)>>))>>))
    [] k = "items" -> sec(InPage(Names("E", m), none, <<Times(m, Leaf("E%", "X%"))>>))
    [] k = "kids" -> sec(InPage(<<"E">>, Element("E", <<PRs("ElementChildNodes", Names("E", m))>>), <<Times(m, Leaf("E%", "X%"))>>))
    [] k = "groups" -> sec(InPage(Names("G", m), none, <<Times(m, Group("G%", <<"E%">>) @@ Leaf("E%", "X%"))>>))
    [] k = "contents" -> sec(InElement(Names("X", m), none, <<Times(m, "X%" :> Node("RichTextNode", <<PR("ParagraphStyle", "S"), PS("RichEditTextUnicode", <<65>>)>>))>>))
    [] k = "rows" -> sec(InElement(<<"B">>, "B" :> Node("TableNode", <<PRs("ElementChildNodes", Names("W", m))>>), <<Times(m, "W%" :> Node("TableRowNode", <<PRs("ElementChildNodes", <<>>)>>))>>))
    [] k = "cells" -> sec(InElement(<<"B">>, ("B" :> Node("TableNode", <<PRs("ElementChildNodes", <<"W">>)>>)) @@ ("W" :> Node("TableRowNode", <<PRs("ElementChildNodes", Names("C", m))>>)),
                          <<Times(m, "C%" :> Node("TableCellNode", <<PRs("ElementChildNodes", <<>>)>>))>>))
    [] k = "cellitems" -> sec(InElement(<<"B">>, ("B" :> Node("TableNode", <<PRs("ElementChildNodes", <<"W">>)>>)) @@ ("W" :> Node("TableRowNode", <<PRs("ElementChildNodes", <<"C">>)>>)) @@
                          ("C" :> Node("TableCellNode", <<PRs("ElementChildNodes", Names("E", m))>>)), <<Times(m, Leaf("E%", "X%"))>>))
    [] k = "lists" -> sec(InPage(<<"E">>, Element("E", <<PRs("ListNodes", Names("L", m))>>), <<Times(m, "L%" :> Node("NumberListNode", <<>>))>>))
    [] k = "iframes" -> sec(InElement(<<"I">>, "I" :> Node("ImageNode", <<PRs("ContentChildNodes", Names("r", m))>>), <<Times(m, "r%" :> Node("IFrameNode", <<>>))>>))
    [] k = "runs" -> sec(Rich(<<PS("RichEditTextUnicode", [j \in 1..m |-> 65]), PRs("TextRunFormatting", Names("s", m)), PV("TextRunIndex", [j \in 1..(4 * (m - 1)) |-> LET k1 == 1 + ((j - 1) \div 4) IN
                          CASE j % 4 = 1 -> k1 % 256 [] j % 4 = 2 -> k1 \div 256 [] OTHER -> 0])>>, none, <<Times(m, "s%" :> Node("ParagraphStyleObject", <<>>))>>))
    [] k = "tags" -> sec(Rich(<<PS("RichEditTextUnicode", <<65>>), PSets("NoteTags", [j \in 1..(m \div 10) |-> Tag("D")])>>, "D" :> Node("NoteTagSharedDefinitionContainer", <<>>), <<>>))
    [] k = "strokes" -> sec(InElement(<<"K">>, Ink("K") @@ StrokeProps @@ ("J" :> Node("InkDataNode", <<PRs("InkStrokes", Names("k", m))>>)),
                          <<Times(m, "k%" :> Node("InkStrokeNode", <<PV("InkPath", MbInt(FALSE, 2) \o MbInt(FALSE, 3) \o MbInt(FALSE, 4)), PR("InkStrokeProperties", "q")>>))>>))
    [] k = "points" -> sec(InElement(<<"K">>, Ink("K") @@ StrokeProps @@ ("J" :> Node("InkDataNode", <<PRs("InkStrokes", <<"k">>)>>)) @@
                          ("k" :> Node("InkStrokeNode", <<PV("InkPath", MbInt(FALSE, 2 * m) \o [j \in 1..(2 * m) |-> 4]), PR("InkStrokeProperties", "q")>>)), <<>>))
    [] k = "dims" -> sec(InElement(<<"K">>, Ink("K") @@ ("q" :> Node("StrokePropertiesNode", <<PV("InkDimensions", DimBytes(XDim, S0) \o DimBytes(YDim, S0) \o TLCEval([j \in 1..(32 * (m \div 10)) |-> (j * 7) % 256]))>>)) @@
                          ("J" :> Node("InkDataNode", <<PRs("InkStrokes", <<"k">>)>>)) @@ ("k" :> Node("InkStrokeNode", <<PV("InkPath", MbInt(FALSE, 0)), PR("InkStrokeProperties", "q")>>)), <<>>))
    [] k = "titles" -> sec(OnePg(("P" :> Node("PageNode", <<PRs("StructureElementChildNodes", <<"T">>)>>)) @@ ("T" :> Node("TitleNode", <<PRs("ElementChildNodes", Names("O", m))>>)), <<Times(m, "O%" :> Node("OutlineNode", <<PRs("ElementChildNodes", <<>>)>>))>>))
    [] k = "blobs" -> sec(OnePg(PageWith(Names("F", m)), <<Times(m, ("F%" :> Node("EmbeddedFileNode", <<PR("EmbeddedFileContainer", "c%")>>)) @@ ("c%" :> ObjB("EmbeddedFileContainer", <<>>, <<"b1">>)))>>))
    [] k = "pages" -> sec([DocOf(RootRev(<<"SS">>, Series("SS", Names("p", m \div 10)), <<>>), [revs |-> <<>>], [spaces |-> m \div 10]) EXCEPT
                          !.spaces = ("R" :> @.R) @@ ("p%" :> [revs |-> <<PageRev(PageWith(<<>>), <<>>)>>])])
    [] k = "series" -> sec(DocOf(RootRev(Names("s", m), none, <<Times(m, Series("s%", <<"p1">>))>>), [revs |-> <<PageRev(PageWith(<<>>), <<>>)>>], [on |-> 1]))
    [] k = "styles" -> sec(InPage(Names("E", m), none, <<Times(m, Leaf("E%", "X"))>>))
    [] k = "extra" -> sec(InPage(<<"E1">>, Leaf("E1", "X"), <<Times(m, "u%" :> Obj("0x00060099", <<PV("0x00003A77", <<1, 2, 3>>)>>))>>))
    [] k = "space" -> sec(DocOf(PlainRoot, [revs |-> <<PageRev(PageWith(<<"O">>) @@ ("O" :> Node("OutlineNode", <<PRs("ElementChildNodes", Names("E", m))>>)), <<Times(m, Leaf("E%", "X%"))>>),
                            [roots |-> [content |-> "M", metadata |-> "N"], objs |-> none, many |-> <<Times(m, Leaf("E%", "X%"))>>]>>], [revs |-> [p1 |-> 3]]))
    [] OTHER -> Book(id, <<[p |-> a1, t |-> "file", doc |-> SecDoc(1)], [p |-> <<110>> \o OneToc, t |-> "file", doc |-> Toc1(TocRoot(Names("B", m)), <<Times(m, Ent("B%", a1))>>)]>>, Fine)
Link(p, to) == [p |-> p, t |-> "link", to |-> to]
SlashU == <<47>>
Up == <<46, 46>>
Loop1(k) == LET id == <<"loop", k>> none == [x \in {} |-> 0] IN
  CASE k = "kid" -> Section(id, InPage(<<"E">>, Element("E", <<PRs("ElementChildNodes", <<"E">>)>>), <<>>), No)
    [] k = "kid2" -> Section(id, InPage(<<"E">>, Element("E", <<PRs("ElementChildNodes", <<"E", "E">>)>>), <<>>), No)
    [] k = "group" -> Section(id, InPage(<<"G">>, Group("G", <<"G">>), <<>>), No)
    [] k = "group2" -> Section(id, InPage(<<"G">>, Group("G", <<"H", "H">>) @@ Group("H", <<"G", "G">>), <<>>), No)
    [] k = "table" -> Section(id, InElement(<<"B">>, ("B" :> Node("TableNode", <<PRs("ElementChildNodes", <<"W">>)>>)) @@ ("W" :> Node("TableRowNode", <<PRs("ElementChildNodes", <<"C">>)>>)) @@
                        ("C" :> Node("TableCellNode", <<PRs("ElementChildNodes", <<"E">>)>>)), <<>>), No)
    [] k = "table2" -> Section(id, InElement(<<"B", "B">>, ("B" :> Node("TableNode", <<PRs("ElementChildNodes", <<"W", "W">>)>>)) @@ ("W" :> Node("TableRowNode", <<PRs("ElementChildNodes", <<"C", "C">>)>>)) @@
                        ("C" :> Node("TableCellNode", <<PRs("ElementChildNodes", <<"E", "E">>)>>)), <<>>), No)
    [] k = "content" -> Section(id, InElement(<<"X">>, ("X" :> Node("ImageNode", <<PRs("ContentChildNodes", <<"X">>)>>)), <<>>), No)
    [] k = "series" -> Section(id, DocOf(RootRev(<<"SS", "SS">>, Series("SS", <<"p1", "p1">>), <<>>), [revs |-> <<PageRev(PageWith(<<>>), <<>>)>>], [on |-> 1]), Fine)
    [] k = "page" -> Section(id, OnePg("P" :> Node("PageNode", <<PRs("ElementChildNodes", <<"P">>)>>), <<>>), Fine)
    [] k = "base" -> Section(id, OnePg("P" :> Node("PageNode", <<PRs("ElementChildNodes", <<"M">>)>>), <<>>), Fine)
    [] k = "toc" -> Book(id, Files(Toc1(TocRoot(<<"top">>), <<>>)), No)
    [] k = "link" -> Book(id, Files(Dirs(<<dd>>)) \o <<Link(dd, <<46>>)>>, No)
    [] k = "linkout" -> Book(id, Files(Dirs(<<dd>>)) \o <<Link(dd \o SlashU \o ee, Up), Link(dd \o SlashU \o <<110>> \o OneToc, Up \o SlashU \o <<110>> \o OneToc), Link(dd \o SlashU \o dd, Up)>>, No)
    [] k = "links" -> Book(id, Files(Dirs(<<dd, ee>>)) \o <<Link(dd, <<46>>), Link(ee, <<46>>)>>, No)
    [] OTHER -> Book(id, Files(Dirs(<<dd, ee>>)) \o [j \in 1..2 |-> [(Files(Dirs(<<dd, ee>>))[j]) EXCEPT !.p = dd \o SlashU \o @]] \o <<Link(ee, dd), Link(dd \o SlashU \o dd, <<46>>), Link(dd \o SlashU \o ee, Up)>>, No)
\* objects that two others contain, those again, and so on: what is shown doubles with each level
Dag1(k, m) == LET id == <<"dag", k, m>> none == [x \in {} |-> 0] e == IF m > 20 THEN AnyEnd ELSE Fine IN
  CASE k = "kids" -> Section(id, InPage(<<"E1">>, Leaf(End("E", m), "X"), <<Times(m, Element("E%", <<PRs("ElementChildNodes", <<"E^", "E^">>)>>))>>), e)
    [] k = "groups" -> Section(id, InPage(<<"G1">>, Group(End("G", m), <<>>), <<Times(m, Group("G%", <<"G^", "G^">>))>>), e)
    [] k = "tables" -> Section(id, InElement(<<"B1">>, End("B", m) :> Node("TableNode", <<PRs("ElementChildNodes", <<>>)>>), <<Times(m, ("B%" :> Node("TableNode", <<PRs("ElementChildNodes", <<"W%">>)>>)) @@
                         ("W%" :> Node("TableRowNode", <<PRs("ElementChildNodes", <<"C%">>)>>)) @@ ("C%" :> Node("TableCellNode", <<PRs("ElementChildNodes", <<"E%">>)>>)) @@ Element("E%", <<PRs("ContentChildNodes", <<"B^", "B^">>)>>))>>), e)
    [] k = "toc" -> Book(id, <<[p |-> a1, t |-> "file", doc |-> SecDoc(1)], [p |-> <<110>> \o OneToc, t |-> "file", doc |-> Toc1(TocRoot(<<"B1">>) @@ Ent(End("B", m), a1), <<Times(m, Box("B%", <<"B^", "B^">>))>>)]>>, e)
    [] OTHER -> Book(id, Files(Dirs(<<dd, ee>>)) \o <<Link(ee, dd), [p |-> <<>>, t |-> "deep", name |-> dd, n |-> m, files |-> <<[p |-> <<110>> \o OneToc, t |-> "file", doc |-> Dirs(<<dd, ee>>)], Link(ee, dd)>>]>>, e)
VARIABLE n
Init == n = Shard
Next == n + Shards < Min2(Limit, Total) /\ n' = n + Shards
CaseOf(i) == CASE Part = "deep" -> Deep1(Deeps[1 + (i % Len(Deeps))], DeepLens[1 + (i \div Len(Deeps))]) [] Part = "wide" -> Wide1(Wides[1 + (i % Len(Wides))], WideLens[1 + (i \div Len(Wides))]) [] Part = "dag" -> Dag1(Dags[1 + (i % Len(Dags))], DagLens[1 + (i \div Len(Dags))]) [] OTHER -> Loop1(Loops[i + 1])
Emitted == n < Min2(Limit, Total) => EmitCase(CaseOf(Idx(n, Total)))
=============================================================================
