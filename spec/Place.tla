------------------------------- MODULE Place -------------------------------
(* P06, P19, P05: at every place of a document that refers to an object: an *)
(* object of every kind, an object of an unreadable kind, an object that    *)
(* does not exist, a reference without target, an object of the right kind  *)
(* that lacks a mandatory attribute; alone, before, after and between its   *)
(* siblings, once and twice.                                                *)
EXTENDS Base
Target == [AuthorContainer |-> "a", RevisionMetadata |-> "xr", TocContainer |-> "xt"] @@ [k \in DOMAIN Spot |-> Spot[k][2]]
TargetNames == <<"a", "xr", "xt", "xu", "zz9", "", "xm", "N", "M", "P", "T", "O", "G", "E", "E2", "L", "X", "B", "W", "C", "I", "IC", "IX", "R", "F", "FC", "S1",
                 "D", "K", "KD", "KDk", "KDp", "SN", "SM", "SS">>
Extra == ("xr" :> Obj("RevisionMetadata", <<>>)) @@ ("xt" :> Obj("TocContainer", <<>>)) @@ ("xu" :> Obj("0x0006FFFF", <<>>)) @@
         ("SN" :> BaseRoot.objs["SN"]) @@ ("SM" :> BaseRoot.objs["SM"]) @@ ("SS" :> BaseRoot.objs["SS"])
ExtraRoot == [x \in {"a", "xr", "xt", "xu"} |-> IF x = "a" THEN Obj("AuthorContainer", <<>>) ELSE Extra[x]]
InPage == [x \in DOMAIN Extra \cup DOMAIN BaseObjs |-> IF x \in DOMAIN BaseObjs THEN BaseObjs[x] ELSE Extra[x]]
\* places: <<kind, property, is a list, name of the usual target>>
Followed == <<
  <<"SectionNode", "ElementChildNodes", TRUE>>, <<"PageManifestNode", "ContentChildNodes", TRUE>>,
  <<"PageNode", "ElementChildNodes", TRUE>>, <<"PageNode", "StructureElementChildNodes", TRUE>>, <<"TitleNode", "ElementChildNodes", TRUE>>,
  <<"OutlineNode", "ElementChildNodes", TRUE>>, <<"OutlineGroup", "ElementChildNodes", TRUE>>, <<"OutlineElementNode", "ElementChildNodes", TRUE>>,
  <<"OutlineElementNode", "ContentChildNodes", TRUE>>, <<"OutlineElementNode", "ListNodes", TRUE>>, <<"TableNode", "ElementChildNodes", TRUE>>,
  <<"TableRowNode", "ElementChildNodes", TRUE>>, <<"TableCellNode", "ElementChildNodes", TRUE>>, <<"ImageNode", "PictureContainer", FALSE>>,
  <<"ImageNode", "ContentChildNodes", TRUE>>, <<"EmbeddedFileNode", "EmbeddedFileContainer", FALSE>>, <<"RichTextNode", "ParagraphStyle", FALSE>>,
  <<"NoteTag", "NoteTagDefinitionOid", FALSE>>, <<"NoteTagB", "NoteTagDefinitionOid", FALSE>>, <<"NoteTagI", "NoteTagDefinitionOid", FALSE>>, <<"NoteTagF", "NoteTagDefinitionOid", FALSE>>, <<"InkContainer", "InkData", FALSE>>,
  <<"InkDataNode", "InkStrokes", TRUE>>, <<"InkStrokeNode", "InkStrokeProperties", FALSE>>,
  <<"root", "content", FALSE>>, <<"root", "metadata", FALSE>>, <<"pageroot", "content", FALSE>>, <<"pageroot", "metadata", FALSE>> >>
\* tags on a paragraph, a table, an image and a file
Hosts == Nested @@ [NoteTagB |-> <<"B", "NoteTags", 1>>, NoteTagI |-> <<"I", "NoteTags", 1>>, NoteTagF |-> <<"F", "NoteTags", 1>>]
Held(k) == IF k \in DOMAIN Hosts THEN LET z == Hosts[k] IN SelectSeq(BaseObjs[z[1]].p, LAMBDA p : p.n = z[2])[1].s[z[3]] ELSE PropsAt(k)
Shapes5 == <<"only", "first", "last", "middle", "twice">>
NF == Len(Followed) NT == Len(TargetNames) NS == 5
Total == NF * NT * NS
Cell3(i) == <<Followed[(i \div (NT * NS)) + 1], TargetNames[((i \div NS) % NT) + 1], Shapes5[(i % NS) + 1]>>
OldRefs(k, n) == LET ps == Held(k) IN IF \E i \in 1..Len(ps) : ps[i].n = n THEN SelectSeq(ps, LAMBDA p : p.n = n)[1].r ELSE <<>>
NewRefs(c) == LET old == OldRefs(c[1][1], c[1][2]) x == <<c[2]>> IN
  CASE c[3] = "only" -> x [] c[3] = "first" -> x \o old [] c[3] = "last" -> old \o x [] c[3] = "twice" -> x \o x
    [] OTHER -> SubSeq(old, 1, Min2(1, Len(old))) \o x \o SubSeq(old, 2, Len(old))
Mandatory(k) == IF k \notin DOMAIN Flds THEN {} ELSE {f[1] : f \in {g \in ToSet(Flds[k]) : g[3] = 1}}
\* "xm": the usual target without one of its mandatory attributes
Broken(c) == LET old == OldRefs(c[1][1], c[1][2]) IN IF old = <<>> \/ c[1][1] \in {"SectionNode"} THEN Obj("PageMetadata", <<>>) ELSE
  LET o == BaseObjs[old[1]] m == Mandatory(o.k) IN IF m = {} THEN o ELSE [o EXCEPT !.p = Without(o.p, CHOOSE x \in m : TRUE)]
\* the usual target has mandatory attributes
Breaks(c) == LET old == OldRefs(c[1][1], c[1][2]) IN old # <<>> /\ old[1] \in DOMAIN BaseObjs /\ Mandatory(BaseObjs[old[1]].k) # {}
\* without a target: only what follows no other reference in the object
Meaningful(c) ==
  /\ c[1][3] \/ c[3] = "only"
  /\ c[2] = "" => ~c[1][3] /\ c[1][1] \notin {"root", "pageroot"}
  /\ c[1][1] \in {"root", "pageroot"} => c[3] = "only"
SpFor(c) ==
  LET k == c[1][1] n == c[1][2]
      sp0 == [BaseSp EXCEPT !["p1"].objs = InPage @@ ("xm" :> IF k \in {"root", "pageroot"} THEN Obj("PageMetadata", <<>>) ELSE Broken(c)),
                            !["R"].objs = @ @@ ExtraRoot @@ ("xm" :> Obj("PageSeriesNode", <<>>))]
      prop == IF c[1][3] THEN PRs(n, NewRefs(c)) ELSE PR(n, c[2])
      \* a reference without target is the last of its object
      put(ps) == IF c[2] = "" THEN Append(Without(ps, n), prop) ELSE Rev(Append(Without(ps, n), prop))
  IN CASE k = "root" -> [sp0 EXCEPT !["R"].roots[n] = c[2]]
       [] k = "pageroot" -> [sp0 EXCEPT !["p1"].roots[n] = c[2]]
       [] k \in DOMAIN Hosts -> LET z == Hosts[k] old == BaseObjs[z[1]].p IN
            [sp0 EXCEPT !["p1"].objs[z[1]].p = put([i \in 1..Len(old) |-> IF old[i].n = z[2] THEN [old[i] EXCEPT !.s[z[3]] = put(@)] ELSE old[i]])]
       [] OTHER -> [sp0 EXCEPT ![Spot[k][1]].objs[Spot[k][2]].p = put(@)]
\* nested sets come after the references of the object itself only if they are last
Fix(c, Sp) == IF c[1][1] \in DOMAIN Hosts THEN LET z == Hosts[c[1][1]] ps == Sp["p1"].objs[z[1]].p IN
                 [Sp EXCEPT !["p1"].objs[z[1]].p = Without(ps, z[2]) \o SelectSeq(ps, LAMBDA p : p.n = z[2])] ELSE Sp
VARIABLE n
Init == n = Shard
Next == n + Shards < Min2(Limit, Total) /\ n' = n + Shards
CaseOf(i) == LET c == Cell3(i) Sp == Fix(c, SpFor(c)) IN SectionCase(<<"place", c[1][1], c[1][2], c[2], c[3]>>, BaseDoc(Sp), <<NoLayout>>, Expect(Sp, Fname))
Active == n < Min2(Limit, Total) /\ Meaningful(Cell3(Idx(n, Total)))
Emitted == Active => EmitCase(CaseOf(Idx(n, Total)))
\* what a document refers to has to be there, readable
Sound == Active => LET c == Cell3(Idx(n, Total)) IN
   (c[2] \in {"zz9", "xu"} \/ (c[2] = "xm" /\ c[1][1] \in {"OutlineNode", "TitleNode", "TableNode", "RichTextNode", "ImageNode"} /\ c[1][2] # "ContentChildNodes" /\ Breaks(c)))
     /\ ~(c[1][1] \in {"PageManifestNode"} /\ c[3] \in {"last"}) /\ ~(c[1][2] = "StructureElementChildNodes" /\ c[3] \in {"last", "middle"})
     /\ ~(c[1][1] = "PageManifestNode" /\ c[3] = "middle")
     => ~Expect(Fix(c, SpFor(c)), Fname).ok
============================================================================
