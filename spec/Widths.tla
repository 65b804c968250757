------------------------------ MODULE Widths ------------------------------
(* P18: sizes and counts at and around the limits of the widths of compact  *)
(* numbers, in every width that can hold them: the lengths of texts, of     *)
(* files and of lists of references to objects and to pages.                *)
EXTENDS Base
Near(S) == UNION { {b - 2, b - 1, b, b + 1} : b \in S }
TextSizes == (0..72) \cup Near({127, 128, 8130, 8160, 16383, 16384}) \cup (8100..8112)
FileSizes == (0..3) \cup (124..130) \cup Near({256, 16384, 32767, 65536}) \cup (IF Deep = 1 THEN Near({2097152}) ELSE {2097151, 2097152})
ListSizes == (0..3) \cup (126..129) \cup {255, 256, 1000} \cup (IF Deep = 1 THEN {16383, 16384} ELSE {})
SpaceSizes == {1, 2, 63, 64, 127, 128, 129, 255, 256, 300}
Sorted(S) == SetToSortSeq(S, <)
All == TLCEval([j \in 1..Cardinality(TextSizes) |-> <<"text", Sorted(TextSizes)[j]>>] \o [j \in 1..Cardinality(FileSizes) |-> <<"file", Sorted(FileSizes)[j]>>] \o
  [j \in 1..Cardinality(ListSizes) |-> <<"list", Sorted(ListSizes)[j]>>] \o [j \in 1..Cardinality(SpaceSizes) |-> <<"pages", Sorted(SpaceSizes)[j]>>])
ASSUME TLCSet(9, All)
Count == Len(TLCGet(9))
Copies(x, k) == [j \in 1..k |-> x]
\* a page of one text, one file and a list of pictures; a series of pages
T1 == Node("RichTextNode", <<PR("ParagraphStyle", "S")>>)
WidePage(t, f, c) == [roots |-> [content |-> "M", metadata |-> "N"], objs |->
  ("M" :> Node("PageManifestNode", <<PRs("ContentChildNodes", <<"P">>)>>)) @@ ("N" :> BaseObjs["N"]) @@
  ("P" :> Node("PageNode", <<PRs("ElementChildNodes", <<"O", "F">> \o Copies("I", c))>>)) @@
  ("O" :> Node("OutlineNode", <<PRs("ElementChildNodes", <<"E">>)>>)) @@ ("E" :> Node("OutlineElementNode", ElementRefs("") \o <<PRs("ContentChildNodes", <<"X">>)>>)) @@
  ("X" :> Obj("RichTextNode", Without(T1.p, "RichEditTextUnicode") \o <<PS("RichEditTextUnicode", [j \in 1..t |-> 65 + (j % 26)])>>)) @@
  ("S" :> BaseObjs["S"]) @@ ("a" :> BaseObjs["a"]) @@ ("I" :> Node("ImageNode", <<>>)) @@
  ("F" :> Node("EmbeddedFileNode", <<PR("EmbeddedFileContainer", "FC")>>)) @@ ("FC" :> BaseObjs["FC"])]
WideSp(t, f, c, p) ==
  ("R" :> [BaseRoot EXCEPT !.objs["SS"].p = Without(@, "ChildGraphSpaceElementNodes") \o <<PSp("ChildGraphSpaceElementNodes", Copies("p1", p))>>]) @@ ("p1" :> WidePage(t, f, c))
SpOf(c) == CASE c[1] = "text" -> WideSp(c[2], 1, 1, 1) [] c[1] = "file" -> WideSp(1, c[2], 1, 1) [] c[1] = "list" -> WideSp(1, 1, c[2], 1) [] OTHER -> WideSp(1, 1, 1, c[2])
FileOf(c) == [n |-> IF c[1] = "file" THEN c[2] ELSE 5, s |-> 7]
VARIABLE n
Bound == Min2(Limit, Count)
Init == n = Shard
Next == n + Shards < Bound /\ n' = n + Shards
Encs(i) == [j \in 1..9 |-> [pack |-> <<"", "new", "revlegacy">>[1 + (j % 3)], enc |-> [seed |-> i + j, cuw |-> j - 1, w |-> IF j = 9 THEN "rand" ELSE "", split |-> j \div 5]]]
CaseOf(c, i) == SectionCase(c, [BaseDoc(SpOf(c)) EXCEPT !.blobs.b3 = FileOf(c)], Encs(i), Expect(SpOf(c), Fname))
Emitted == n < Bound => EmitCase(CaseOf(TLCGet(9)[Idx(n, Count) + 1], n))
Sound == n = Shard => Expect(SpOf(TLCGet(9)[Idx(n, Count) + 1]), Fname).ok
===========================================================================
