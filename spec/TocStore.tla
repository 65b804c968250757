------------------------------ MODULE TocStore ------------------------------
(* The meaning of the bytes of a table of contents in a directory of files. *)
EXTENDS Store, Toc
TocSchema == HexGuid(<<228, 219, 253, 56>>, <<229, 199>>, <<64, 139>>, <<168, 161, 14, 123, 66, 30, 31, 95>>)
One0 == <<46, 111, 110, 101>>
NameA == <<65>> \o One0  NameB == <<66>> \o One0
Around == (<<NameA>> :> [t |-> "file", c |-> "section", n |-> 1]) @@ (<<NameB>> :> [t |-> "file", c |-> "section", n |-> 2])
\* an attribute of an object: <<>> absent, <<v>> or an error
Attr0(o, n, ty) == LET q == SelectSeq(o.p, LAMBDA p : p.n = n) IN
  IF q = <<>> THEN [ok |-> TRUE, v |-> <<>>] ELSE LET d == Dec(ty, q[1]) IN IF d = <<>> THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> d]
RECURSIVE Entries0(_, _, _)
Entries0(objs, x, depth) ==
  IF depth >= MaxNesting \/ x \notin DOMAIN objs THEN Failed ELSE
  LET o == objs[x] kids == Attr0(o, "TocChildren", "oids") name == Attr0(o, "FolderChildFilename", "str")
      ord == Attr0(o, "NotebookElementOrderingId", "u32") col == Attr0(o, "SectionColor", "color") IN
  IF o.k # "TocContainer" \/ ~kids.ok \/ ~name.ok \/ ~ord.ok \/ ~col.ok THEN Failed
  ELSE IF name.v # <<>> THEN (IF ord.v = <<>> THEN Failed
    ELSE LET w == ord.v[1] IN [ok |-> TRUE, col |-> col.v, v |-> << <<<<w[3] + 256 * w[4], w[1] + 256 * w[2]>>, name.v[1]>> >>])
  ELSE LET ks == IF kids.v = <<>> THEN <<>> ELSE kids.v[1]
           r == FoldLeft(LAMBDA a, k : IF ~a.ok THEN a ELSE LET e == Entries0(objs, k, depth + 1) IN IF ~e.ok THEN Failed ELSE [a EXCEPT !.v = @ \o e.v], [ok |-> TRUE, col |-> col.v, v |-> <<>>], ks)
       IN r
\* what a reader shows for the bytes B of a table of contents next to the files A.one and B.one
TocMeaning(B) ==
  LET p == Package(B) IN
  IF p.i = 0 THEN Failed
  ELSE LET s == StoreOf(p.v) IN
  IF ~s.ok THEN Failed
  ELSE IF s.schema # TocSchema THEN Failed
  ELSE IF s.any THEN Open
  ELSE IF "content" \notin DOMAIN s.root.roots THEN Failed
  ELSE LET es == Entries0(s.root.objs, s.root.roots["content"], 0) IN
  IF ~es.ok THEN Failed
  ELSE IF \E j \in 1..Len(es.v) : Len(es.v[j][2]) > 80 THEN Open
  ELSE LET shown == Shown0(Around, <<>>, es.v, 0) IN
  IF ~shown.ok THEN Failed ELSE [ok |-> TRUE, v |-> [entries |-> EntryViews(shown.v), color |-> es.col]]
=============================================================================
