------------------------------- MODULE Tree -------------------------------
(* P06: a writer adds nodes to a page in document order; every tree of at   *)
(* most MaxNodes nodes is reached in exactly one way.  The view has to show *)
(* exactly the written tree.                                                *)
EXTENDS Base
CONSTANTS MaxNodes, Every
\* kinds: Outline Image File inK Unknown Title Group Element teXt taBle roW Cell List
AllowedIn == [Page |-> <<"O", "I", "F", "K", "Z", "T">>, T |-> <<"O">>, O |-> <<"G", "E">>, G |-> <<"G", "E">>,
              E |-> <<"X", "I", "F", "K", "B", "Z", "L", "G", "E">>, B |-> <<"W">>, W |-> <<"C">>, C |-> <<"E">>]
Allowed(k) == IF k \in DOMAIN AllowedIn THEN ToSet(AllowedIn[k]) ELSE {}
Class(k) == CASE k = "T" -> 2 [] k = "L" -> 2 [] k \in {"G", "E"} -> 3 [] OTHER -> 1
KindName == [O |-> "OutlineNode", I |-> "ImageNode", F |-> "EmbeddedFileNode", K |-> "InkContainer", Z |-> "TitleNode", T |-> "TitleNode", G |-> "OutlineGroup",
             E |-> "OutlineElementNode", X |-> "RichTextNode", B |-> "TableNode", W |-> "TableRowNode", C |-> "TableCellNode", L |-> "NumberListNode"]
KindNo == [O |-> 1, I |-> 2, F |-> 3, K |-> 4, Z |-> 5, T |-> 6, G |-> 7, E |-> 8, X |-> 9, B |-> 10, W |-> 11, C |-> 12, L |-> 13]
VARIABLES nodes, h       \* nodes: <<kind, parent>> (0 is the page); h: distributes the states over the shards
Init == nodes = <<>> /\ h = VSeed % 1000
KindAt(ns, i) == IF i = 0 THEN "Page" ELSE ns[i][1]
RECURSIVE Path(_, _)
Path(ns, i) == IF i = 0 THEN {0} ELSE {i} \cup Path(ns, ns[i][2])
Kids(ns, i) == SelectSeq([j \in 1..Len(ns) |-> j], LAMBDA j : ns[j][2] = i)
Add(p, k) ==
  /\ k \in Allowed(KindAt(nodes, p))
  /\ LET ks == Kids(nodes, p) IN ks # <<>> => Class(nodes[ks[Len(ks)]][1]) <= Class(k) /\ ~(k = "T" /\ nodes[ks[Len(ks)]][1] = "T")
  /\ nodes' = Append(nodes, <<k, p>>)
  /\ h' = (h * 131 + KindNo[k] * 17 + p * 7 + 3) % 65521
Next == Len(nodes) < MaxNodes /\ \E p \in Path(nodes, Len(nodes)) : \E k \in Allowed(KindAt(nodes, p)) : Add(p, k)

Name(i) == "n" \o ToString(i)
KidsOf(ns, i, cl) == Map(Name, SelectSeq(Kids(ns, i), LAMBDA j : Class(ns[j][1]) = cl))
RefsOf(n, xs) == OneIf(xs # <<>>, PRs(n, xs))
Marked(k, n, p) == LET o == Node(k, <<>>) IN [o EXCEPT !.p = Without(o.p, n) \o <<p>>]
ObjOf(ns, i) ==
  LET k == ns[i][1] K == KindName[k] c1 == KidsOf(ns, i, 1) c2 == KidsOf(ns, i, 2) c3 == KidsOf(ns, i, 3)
      kids == IF k \in {"T", "O", "G", "B", "W", "C"} THEN <<PRs("ElementChildNodes", c1 \o c2 \o c3)>>
              ELSE IF k = "E" THEN ElementRefs("") \o RefsOf("ContentChildNodes", c1) \o RefsOf("ListNodes", c2) \o RefsOf("ElementChildNodes", c3) ELSE <<>>
      m == CASE k \in {"O", "G", "E"} -> Marked(K, "OutlineElementChildLevel", PI("OutlineElementChildLevel", <<i>>))
             [] k = "I" -> Marked(K, "ImageAltText", PS("ImageAltText", <<i>>))
             [] k = "F" -> Marked(K, "EmbeddedFileName", PS("EmbeddedFileName", <<i>>))
             [] k = "K" -> Marked(K, "OffsetFromParentHoriz", PI("OffsetFromParentHoriz", LE4(i)))
             [] k \in {"T"} -> Marked(K, "OffsetFromParentHoriz", PI("OffsetFromParentHoriz", LE4(i)))
             [] k = "X" -> Marked(K, "RichEditTextUnicode", PS("RichEditTextUnicode", <<i>>))
             [] k = "B" -> Marked(K, "RowCount", PI("RowCount", LE4(i)))
             [] k = "C" -> Marked(K, "LayoutMaxWidth", PI("LayoutMaxWidth", LE4(i)))
             [] k = "L" -> Marked(K, "ListRestart", PI("ListRestart", LE4(i)))
             [] OTHER -> Node(K, <<>>)
      more == CASE k = "F" -> <<PR("EmbeddedFileContainer", "FC")>> [] k = "X" -> <<PR("ParagraphStyle", "S")>> [] OTHER -> <<>>
  IN [m EXCEPT !.p = Rev(m.p \o kids \o more)]
TitleKids(ns) == SelectSeq(Kids(ns, 0), LAMBDA j : ns[j][1] = "T")
PageOf(ns) ==
  [roots |-> [content |-> "M", metadata |-> "N"],
   objs |-> [x \in {Name(i) : i \in 1..Len(ns)} |-> LET i == CHOOSE i \in 1..Len(ns) : Name(i) = x IN ObjOf(ns, i)] @@
     [x \in {"M", "N", "S", "a", "FC"} |-> BaseObjs[x]] @@
     ("P" :> Node("PageNode", RefsOf("ElementChildNodes", KidsOf(ns, 0, 1)) \o RefsOf("StructureElementChildNodes", KidsOf(ns, 0, 2))))]
TreeSp(ns) == [BaseSp EXCEPT !["p1"] = PageOf(ns)]

\* the written tree and the shown tree as lists of <<depth, kind, mark>> in document order
RECURSIVE Written(_, _, _)
MarkOf(ns, i) == IF ns[i][1] \in {"W", "Z"} THEN 0 ELSE i
Below1(ns, i, d) == Concat(Map(LAMBDA j : Written(ns, j, d), Kids(ns, i)))
Written(ns, i, d) == << <<d, ns[i][1], MarkOf(ns, i)>> >> \o Below1(ns, i, d + 1)
Written0(ns) == Concat(Map(LAMBDA j : Written(ns, j, 1), SelectSeq(Kids(ns, 0), LAMBDA j : ns[j][1] # "T") \o TitleKids(ns)))
RECURSIVE Shown(_, _)
All0(vs, d) == Concat(Map(LAMBDA v : Shown(v, d), vs))
Shown(v, d) ==
  CASE v.k = "outline" -> << <<d, "O", v.child_level[1]>> >> \o All0(v.items, d + 1)
    [] v.k = "group" -> << <<d, "G", v.child_level[1]>> >> \o All0(v.items, d + 1)
    [] v.k = "element" -> << <<d, "E", v.child_level[1]>> >> \o All0(v.contents \o v.lists \o v.children, d + 1)
    [] v.k = "table" -> << <<d, "B", v.rows[1]>> >> \o Concat(Map(LAMBDA r : << <<d + 1, "W", 0>> >> \o
          Concat(Map(LAMBDA c : << <<d + 2, "C", c.max_width[1][1]>> >> \o All0(c.contents, d + 3), r)), v.contents))
    [] v.k = "text" -> << <<d, "X", v.text[1]>> >>
    [] v.k = "image" -> << <<d, "I", v.alt_text[1][1]>> >>
    [] v.k = "file" -> << <<d, "F", v.filename[1]>> >>
    [] v.k = "ink" -> << <<d, "K", v.offset_horizontal[1][1]>> >>
    [] v.k = "list" -> << <<d, "L", v.restart[1][1]>> >>
    [] OTHER -> << <<d, "Z", 0>> >>
Mine == (h \div 7) % Shards = Shard
Sound == Mine =>
  LET e == Expect(TreeSp(nodes), Fname) IN
  /\ e.ok
  /\ LET pg == e.v.series[1][1] IN
     All0(pg.contents, 1) \o Concat(Map(LAMBDA t : << <<1, "T", t.offset_horizontal[1]>> >> \o All0(t.contents, 2), pg.title)) = Written0(nodes)
Emitted == Mine /\ h % Every = 0 =>
  LET Sp == TreeSp(nodes) IN EmitCase(SectionCase(<<"tree", nodes>>, BaseDoc(Sp), <<NoLayout>>, Expect(Sp, Fname)))
============================================================================
