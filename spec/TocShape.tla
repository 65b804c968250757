------------------------------ MODULE TocShape ------------------------------
(* P12, P19: the objects of a table of contents: a writer adds children of  *)
(* every form to its root; every sequence of at most MaxKids children.      *)
EXTENDS Toc
CONSTANTS MaxKids
One == <<46, 111, 110, 101>>
a == <<65>> \o One   b == <<66>> \o One  d == <<67>> \o One
Ent(o, u) == Obj("TocContainer", <<PI("NotebookElementOrderingId", LE4(o)), PS("FolderChildFilename", u)>>)
Kids == [e1 |-> Ent(5, a), e2 |-> Ent(3, b), e0 |-> Ent(0, d), e3 |-> Ent(5, b),
         noord |-> Obj("TocContainer", <<PS("FolderChildFilename", a)>>),
         noname |-> Obj("TocContainer", <<PI("NotebookElementOrderingId", LE4(1)), PRs("TocChildren", <<"e0">>)>>),
         box |-> Obj("TocContainer", <<PRs("TocChildren", <<"e1", "box2">>), PI("SectionColor", LE4(77))>>), box2 |-> Obj("TocContainer", <<PRs("TocChildren", <<"e3", "empty">>)>>),
         empty |-> Obj("TocContainer", <<PI("SectionColor", LE4(99))>>),
         named |-> Obj("TocContainer", <<PRs("TocChildren", <<"e1", "e2">>), PI("NotebookElementOrderingId", LE4(4)), PS("FolderChildFilename", d), PI("SectionColor", LE4(98))>>),
         wrong |-> Obj("SectionMetadata", <<>>), broken |-> Obj("TocContainer", <<PRs("TocChildren", <<"gone">>)>>),
         badorder |-> Obj("TocContainer", <<PI("NotebookElementOrderingId", <<1, 0>>), PS("FolderChildFilename", a)>>)]
KidNo == [e1 |-> 1, e2 |-> 2, e0 |-> 3, e3 |-> 4, noord |-> 5, noname |-> 6, box |-> 7, empty |-> 8, named |-> 9, wrong |-> 10, gone |-> 11, broken |-> 12, badorder |-> 13]
VARIABLES kids, root, h
Roots == {"plain", "colour", "named", "named+noord", "none", "gone", "wrong"}
RootNo(r) == CASE r = "plain" -> 1 [] r = "colour" -> 2 [] r = "named" -> 3 [] r = "named+noord" -> 4 [] r = "none" -> 5 [] r = "gone" -> 6 [] OTHER -> 7
Init == kids = <<>> /\ root \in Roots /\ h = RootNo(root) * 3
Add(x) == kids' = Append(kids, x) /\ h' = (h * 37 + KidNo[x] * 19 + 5) % 65521 /\ UNCHANGED root
Next == Len(kids) < (IF root \in {"plain", "colour"} THEN MaxKids ELSE 1) /\ \E x \in DOMAIN KidNo : Add(x)
RootObj == CASE root = "wrong" -> Obj("SectionMetadata", <<>>)
   [] OTHER -> Obj("TocContainer", <<PRs("TocChildren", kids)>> \o OneIf(root \in {"colour", "named"}, PI("SectionColor", <<1, 2, 3, 4>>)) \o
                 OneIf(root \in {"named", "named+noord"}, PS("FolderChildFilename", a)) \o OneIf(root = "named", PI("NotebookElementOrderingId", LE4(7))))
\* the entries of an object, or an error
RECURSIVE Flat(_), FlatAll(_)
PropOf(o, n) == SelectSeq(o.p, LAMBDA p : p.n = n)
Flat(o) ==
  IF o.k # "TocContainer" THEN Fail ELSE
  LET name == PropOf(o, "FolderChildFilename") ord == PropOf(o, "NotebookElementOrderingId") ks == PropOf(o, "TocChildren") IN
  IF ord # <<>> /\ ord[1].t # 5 THEN Fail
  ELSE IF name # <<>> THEN (IF ord = <<>> THEN Fail ELSE [ok |-> TRUE, v |-> << <<<<0, ord[1].v[1] + 256 * ord[1].v[2]>>, [i \in 1..(Len(name[1].v) \div 2) |-> name[1].v[2 * i - 1] + 256 * name[1].v[2 * i]]>> >>])
  ELSE FlatAll(IF ks = <<>> THEN <<>> ELSE ks[1].r)
FlatAll(xs) == IF xs = <<>> THEN [ok |-> TRUE, v |-> <<>>] ELSE
  LET x == Head(xs) f == IF x \in DOMAIN Kids THEN Flat(Kids[x]) ELSE Fail r == FlatAll(Tail(xs)) IN
  IF f.ok /\ r.ok THEN [ok |-> TRUE, v |-> f.v \o r.v] ELSE Fail
FsFor == (<<a>> :> [t |-> "file", c |-> "section", n |-> 1]) @@ (<<b>> :> [t |-> "file", c |-> "section", n |-> 2])
Answer == IF root \in {"none", "gone"} THEN Fail ELSE LET f == Flat(RootObj) IN IF ~f.ok THEN Fail ELSE
  LET s == Shown0(FsFor, <<>>, f.v, 0) IN
  IF ~s.ok THEN Fail ELSE [ok |-> TRUE, v |-> [entries |-> EntryViews(s.v), color |-> IF root \in {"colour", "named"} THEN << <<251, 1, 2, 3>> >> ELSE <<>>]]
TocDoc0 == [schema |-> "toc", root |-> "R", blobs |-> <<>>, spaces |-> [R |-> [revs |-> <<
  [roots |-> (CASE root = "none" -> [x \in {} |-> ""] [] root = "gone" -> [content |-> "gone"] [] OTHER -> [content |-> "top"]), objs |-> ("top" :> RootObj) @@ Kids]>>]]]
Mine == (h \div 5) % Shards = Shard
Emitted == Mine => EmitCase([op |-> "notebook", id |-> <<"tocshape", root, kids>>, expect |-> Answer, open |-> "n.onetoc2",
   tree |-> << [p |-> a, t |-> "file", doc |-> SecDoc(1)], [p |-> b, t |-> "file", doc |-> SecDoc(2)], [p |-> "n.onetoc2", t |-> "file", doc |-> TocDoc0] >>])
\* where every named file exists no section is followed by itself
Missing == \E j \in 1..Len(kids) : kids[j] \in {"named", "e0"}
Sound == Mine /\ Answer.ok /\ ~Missing => LET es == Answer.v.entries IN
  /\ \A j \in 1..(Len(es) - 1) : es[j].section.name # es[j + 1].section.name
============================================================================
