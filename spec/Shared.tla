------------------------------ MODULE Shared ------------------------------
(* P01, P02: the pages of a section share revisions.  A page is a copy of   *)
(* another page as it was, until one of them is edited: then it has a new   *)
(* revision that depends on the shared one.  Each page shows what was       *)
(* written to it or to what it was copied from, whatever happens elsewhere. *)
EXTENDS Base
CONSTANTS MaxActs, Every
Pages == {"p1", "p2", "p3"}
Objs == {"M", "N", "P", "O", "V"}
With1(o, x, p) == [o EXCEPT !.p = Without(@, x) \o <<p>>]
Kids(w) == <<(<<"O", "V">>), (<<"O">>), (<<"V">>), (<<"V", "O">>)>>[1 + (w % 4)]
Version(x, w) ==
  CASE x = "M" -> Node("PageManifestNode", <<PRs("ContentChildNodes", <<"P">>)>>)
    [] x = "N" -> With1(Node("PageMetadata", <<>>), "CachedTitleString", PS("CachedTitleString", <<65 + w>>))
    [] x = "P" -> Node("PageNode", <<PRs("ElementChildNodes", Kids(w))>>)
    [] OTHER -> With1(Node("OutlineNode", <<PRs("ElementChildNodes", <<>>)>>), "LayoutMaxWidth", PI("LayoutMaxWidth", LE4(w)))
Edits == {{"N"}, {"O"}, {"P"}, {"N", "V"}, {"P", "O"}, Objs}
VARIABLES revs,  \* [base, objs: written version]
          cur,   \* of each page
          view,  \* of each page: object -> version
          acts, h
Written(S, w) == [x \in S |-> w]
Init == /\ revs = <<[base |-> 0, objs |-> Written(Objs, 0)]>> /\ cur = [p \in Pages |-> 1] /\ view = [p \in Pages |-> Written(Objs, 0)] /\ acts = 0
        /\ h \in {VSeed % 60, 1000 + (VSeed % 60)}
Do(k) == acts' = acts + 1 /\ h' = (h * 69 + k * 101 + 7) % 65521
No(p) == CASE p = "p1" -> 1 [] p = "p2" -> 2 [] OTHER -> 3
Size(S) == Cardinality(S) * 7 + Cardinality(S \cap {"N"}) + 2 * Cardinality(S \cap {"O"}) + 3 * Cardinality(S \cap {"P"})
Edit(p, S) == LET w == Len(revs) IN
  /\ revs' = Append(revs, [base |-> cur[p], objs |-> Written(S, w)]) /\ cur' = [cur EXCEPT ![p] = w + 1]
  /\ view' = [view EXCEPT ![p] = Written(S, w) @@ @] /\ Do(10 * No(p) + Size(S))
Copy(p, q) == cur[p] # cur[q] /\ cur' = [cur EXCEPT ![q] = cur[p]] /\ view' = [view EXCEPT ![q] = view[p]] /\ UNCHANGED revs /\ Do(200 + 10 * No(p) + No(q))
\* back to the revision before
Undo(p) == LET b == revs[cur[p]].base IN b # 0 /\ cur' = [cur EXCEPT ![p] = b] /\ UNCHANGED revs /\ Do(300 + No(p))
  /\ view' = [view EXCEPT ![p] = LET RECURSIVE At(_) At(k) == IF k = 0 THEN << >> ELSE revs[k].objs @@ At(revs[k].base) IN At(b)]
Next == acts < MaxActs /\ ((\E p \in Pages, S \in Edits : Edit(p, S)) \/ (\E p, q \in Pages : Copy(p, q)) \/ \E p \in Pages : Undo(p))
\* the reader
RECURSIVE Walk(_, _)
Walk(k, acc) == IF k = 0 THEN acc ELSE Walk(revs[k].base, acc @@ revs[k].objs)
Sound == \A p \in Pages : Walk(cur[p], << >>) = view[p]
SpOf == [BaseSp EXCEPT !["R"].objs["SS"] = Node("PageSeriesNode", <<PSp("ChildGraphSpaceElementNodes", <<"p2", "p1", "p3">>)>>)] @@ << >>
PageOf(p) == [roots |-> [content |-> "M", metadata |-> "N"], objs |-> [x \in Objs |-> Version(x, view[p][x])]]
Full == [p \in Pages |-> PageOf(p)] @@ [R |-> SpOf["R"]]
Vias == <<"", "cmdirect", "direct", "map">>
RevDoc(k) == [roots |-> IF revs[k].base = 0 THEN [content |-> "M", metadata |-> "N"] ELSE [x \in {} |-> "M"], objs |-> [x \in DOMAIN revs[k].objs |-> Version(x, revs[k].objs[x])],
              baserev |-> IF revs[k].base = 0 THEN "nil" ELSE (IF (h + k) % 2 = 0 THEN "rid:p1:" ELSE "rm:p1:") \o ToString(revs[k].base)]
DocOf == [BaseDoc([R |-> Full["R"]]) EXCEPT !.spaces = @ @@
  [p1 |-> [maps |-> "all", via |-> Vias[1 + ((h \div 3) % 4)], cur |-> cur["p1"], revs |-> [k \in 1..Len(revs) |-> RevDoc(k)]],
   p2 |-> [via |-> Vias[1 + ((h \div 5) % 4)], use |-> <<"p1", cur["p2"]>>, revs |-> <<>>], p3 |-> [via |-> Vias[1 + ((h \div 7) % 4)], use |-> <<"p1", cur["p3"]>>, revs |-> <<>>]]]
Emitted == ((h \div 11) % Shards = Shard /\ (h \div 97) % Every = 0) => EmitCase(SectionCase(<<"shared", revs, cur>>, DocOf, <<NoLayout, Layout(Seed(h, VSeed))>>, Expect(Full, Fname)))
===========================================================================
