------------------------------ MODULE History ------------------------------
(* P01: a writer works on one space of a section: it writes new versions of *)
(* objects, declares roots, opens revisions, goes back to earlier revisions *)
(* and continues there, and takes object groups over from earlier           *)
(* revisions.  The view it maintains itself has to be what a reader finds   *)
(* that walks from the current revision to its oldest ancestor, taking the  *)
(* first version of each object and each root; and that is what the parser  *)
(* has to show.                                                             *)
EXTENDS Base
CONSTANTS World, MaxActs, MaxRevs, Every
\* the space that has a history: a page ("p1") or the root of the section ("R")
Objs == IF World = "p1" THEN <<"M", "N", "N2", "P", "O", "V">> ELSE <<"SN", "SM", "SM2", "Q1", "Q2">>
Targets == IF World = "p1" THEN [content |-> {"M"}, metadata |-> {"N", "N2"}] ELSE [content |-> {"SN"}, metadata |-> {"SM", "SM2"}]
Kids(w) == CASE w % 4 = 0 -> <<"O">> [] w % 4 = 1 -> <<"O", "V">> [] w % 4 = 2 -> <<"V">> [] OTHER -> <<"V", "O">>
Pages4(w) == CASE w % 4 = 0 -> <<"p1">> [] w % 4 = 1 -> <<"p1", "p2">> [] w % 4 = 2 -> <<"p2">> [] OTHER -> <<"p2", "p1">>
With1(o, n, p) == [o EXCEPT !.p = Without(@, n) \o <<p>>]
Title(w) == PS("CachedTitleString", <<65 + w>>)
OutV(id, w) == With1(Node("OutlineNode", <<PRs("ElementChildNodes", <<>>)>>), "LayoutMaxWidth", PI("LayoutMaxWidth", LE4(w)))
SeriesV(w) == Node("PageSeriesNode", <<PSp("ChildGraphSpaceElementNodes", Pages4(w))>>)
\* version w of object x
Version(x, w) ==
  CASE x = "M" -> Node("PageManifestNode", <<PRs("ContentChildNodes", <<"P">>)>>)
    [] x \in {"N", "N2"} -> With1(Node("PageMetadata", <<>>), "CachedTitleString", Title(w))
    [] x = "P" -> Node("PageNode", <<PRs("ElementChildNodes", Kids(w))>>)
    [] x \in {"O", "V"} -> OutV(x, w)
    [] x = "SN" -> Node("SectionNode", <<PRs("ElementChildNodes", CASE w % 4 = 0 -> <<"Q1">> [] w % 4 = 1 -> <<"Q1", "Q2">> [] w % 4 = 2 -> <<"Q2">> [] OTHER -> <<"Q2", "Q1">>)>>)
    [] x \in {"SM", "SM2"} -> Obj("SectionMetadata", Without(Node("SectionMetadata", <<>>).p, "SectionDisplayName") \o <<PS("SectionDisplayName", <<65 + w>>)>>)
    [] OTHER -> SeriesV(w)
VARIABLES revs,   \* revisions: [roots, objs: name -> version, base: number (0: none), takes: revisions whose groups it uses]
          cur,    \* the current revision
          view,   \* what the writer sees: [roots, objs]
          state,  \* "open": cur may be written to; "closed": it is an earlier revision; "done"
          acts, h
NoMap == [x \in {} |-> 0]
No == [roots |-> NoMap, objs |-> NoMap]
All1 == [x \in ToSet(Objs) \ {"N2", "SM2"} |-> 1]
Roots1 == IF World = "p1" THEN [content |-> "M", metadata |-> "N"] ELSE [content |-> "SN", metadata |-> "SM"]
Init == /\ \/ /\ revs = <<[roots |-> Roots1, objs |-> All1, base |-> 0, takes |-> {}]>>
              /\ view = [roots |-> Roots1, objs |-> All1]
           \/ /\ revs = <<[roots |-> NoMap, objs |-> NoMap, base |-> 0, takes |-> {}]>>
              /\ view = No
        /\ cur = 1 /\ state = "open" /\ acts = 0
        /\ h \in {i * 9 + 1000 * (VSeed % 60) : i \in 0..1}
Do(n) == acts' = acts + 1 /\ h' = (h * 69 + n * 101 + 7) % 65521
ObjNo(x) == CHOOSE i \in 1..Len(Objs) : Objs[i] = x
Mine1 == revs[cur].objs
\* in one revision objects are written in their order, so that every content of a revision is reached once
WriteObj(x) ==
          /\ state = "open" /\ \A y \in DOMAIN Mine1 : ObjNo(y) < ObjNo(x)
          /\ \A t \in revs[cur].takes : x \notin DOMAIN revs[t].objs
          /\ LET w == acts + 2 + (h % 2) IN
             /\ revs' = [revs EXCEPT ![cur].objs = (x :> w) @@ @]
             /\ view' = [view EXCEPT !.objs = (x :> w) @@ @]
          /\ Do(ObjNo(x)) /\ UNCHANGED <<cur, state>>
SetRoot(r, x) == /\ state = "open" /\ r \notin DOMAIN revs[cur].roots
                 /\ revs' = [revs EXCEPT ![cur].roots = (r :> x) @@ @]
                 /\ view' = [view EXCEPT !.roots = (r :> x) @@ @]
                 /\ Do(20 + ObjNo(x)) /\ UNCHANGED <<cur, state>>
Open == /\ Len(revs) < MaxRevs /\ state \in {"open", "closed"}
        /\ revs' = Append(revs, [roots |-> NoMap, objs |-> NoMap, base |-> cur, takes |-> {}])
        /\ cur' = Len(revs) + 1 /\ state' = "open"
        /\ Do(31) /\ UNCHANGED view
\* the view of a revision, computed by applying its ancestors' writes from the oldest on
RECURSIVE Reapply(_)
Reapply(k) == IF k = 0 THEN No ELSE
  LET b == Reapply(revs[k].base)
      taken == IF revs[k].takes = {} THEN NoMap ELSE LET t == CHOOSE t \in revs[k].takes : TRUE IN revs[t].objs
  IN [roots |-> revs[k].roots @@ b.roots, objs |-> revs[k].objs @@ taken @@ b.objs]
Back(b) == /\ b < cur /\ state \in {"open", "closed"}
           /\ cur' = b /\ state' = "closed" /\ view' = Reapply(b) /\ Do(40 + b) /\ UNCHANGED revs
\* take over the objects that revision t wrote
Take(t) == /\ state = "open" /\ t < cur /\ revs[cur].takes = {} /\ DOMAIN revs[t].objs # {} /\ DOMAIN revs[t].objs \cap DOMAIN Mine1 = {}
           /\ revs' = [revs EXCEPT ![cur].takes = {t}]
           /\ view' = [view EXCEPT !.objs = revs[t].objs @@ @]
           /\ Do(50 + t) /\ UNCHANGED <<cur, state>>
\* damage: revision k depends on revision j (or on none that exists, j = 0)
Tie(k, j) == /\ state # "done" /\ acts > 0 /\ (j = 0 \/ j >= k)
             /\ revs' = [revs EXCEPT ![k].base = IF j = 0 THEN -1 ELSE j]
             /\ state' = "done" /\ Do(60 + 7 * k + j) /\ UNCHANGED <<cur, view>>
Next == acts < MaxActs /\ state # "done" /\
  (\/ \E x \in ToSet(Objs) : WriteObj(x)
   \/ \E r \in DOMAIN Targets : \E x \in Targets[r] : SetRoot(r, x)
   \/ Open \/ \E b \in 1..(cur - 1) : Back(b)
   \/ \E t \in 1..(cur - 1) : Take(t)
   \/ \E k \in 1..Len(revs) : \E j \in 0..Len(revs) : Tie(k, j))

\* the reader
RECURSIVE Read(_, _, _)
Read(k, seen, acc) ==
  IF k = 0 THEN [ok |-> TRUE, v |-> acc]
  ELSE IF k = -1 \/ k \in seen THEN [ok |-> FALSE]
  ELSE LET r == revs[k]
           taken == IF r.takes = {} THEN NoMap ELSE LET t == CHOOSE t \in r.takes : TRUE IN revs[t].objs
       IN Read(r.base, seen \cup {k}, [roots |-> acc.roots @@ r.roots, objs |-> acc.objs @@ r.objs @@ taken])
Reader == Read(cur, {}, No)

\* the section
Other(x, w) == [roots |-> [content |-> "M", metadata |-> "N"], objs |-> [y \in {"M", "N", "P", "O", "V"} |-> Version(y, IF y = "P" THEN 1 ELSE w)]]
Resolve(v) == [roots |-> v.roots, objs |-> [x \in DOMAIN v.objs |-> Version(x, v.objs[x])]]
SpOf(v) ==
  IF World = "p1" THEN
    [BaseSp EXCEPT !["R"].objs["SS"] = Node("PageSeriesNode", <<PSp("ChildGraphSpaceElementNodes", <<"p2", "p1", "p3">>)>>), !["p1"] = Resolve(v)] @@ ("p2" :> Other("p2", 28)) @@ ("p3" :> Other("p3", 30))
  ELSE ("R" :> Resolve(v)) @@ ("p1" :> Other("p1", 20)) @@ ("p2" :> Other("p2", 22))
Expected == IF Reader.ok THEN Expect(SpOf(Reader.v), Fname) ELSE [ok |-> FALSE]
Mine == (h \div 7) % Shards = Shard
Same(v, w) == v.roots = w.roots /\ v.objs = w.objs
Sound == Mine =>
  /\ state # "done" => Reader.ok /\ Same(Reader.v, view) /\ Same(Reapply(cur), view)
  \* a section whose first revision is complete stays readable
  /\ (state # "done" /\ DOMAIN revs[1].roots = {"content", "metadata"} /\ ToSet(Objs) \ {"N2", "SM2"} \subseteq DOMAIN view.objs /\
        (World = "p1" => view.roots.metadata \in DOMAIN view.objs) /\ (World = "R" => view.roots.metadata \in DOMAIN view.objs)) => Expected.ok
--------------------------------------------------------------------------
\* the file
Entries(os) == LET xs == SetToSeq(DOMAIN os) IN [i \in 1..Len(xs) |-> <<xs[i], os[xs[i]]>>]
Vias == <<"", "cmdirect", "serial", "direct", "map">>
RevDoc(k) ==
  LET r == revs[k] os == [x \in DOMAIN r.objs |-> Version(x, r.objs[x])]
      contents == IF os = NoMap /\ h % 2 = 0 THEN [groups |-> <<>>] ELSE IF Len(SetToSeq(DOMAIN os)) <= 1 \/ h % 3 > 0 THEN [groups |-> << Entries(os) >>]
                  ELSE LET q == Entries(os) IN [groups |-> <<SubSeq(q, 1, 1), SubSeq(q, 2, Len(q))>>]
      base == IF r.base = -1 THEN [baserev |-> "rid:none:1"] ELSE IF r.base = 0 THEN [baserev |-> "nil"] ELSE
              [baserev |-> (IF (h \div 5) % 2 = 0 THEN "rid:" ELSE "rm:") \o World \o ":" \o ToString(r.base)]
      gs == [t \in r.takes |-> <<"og:" \o World \o ":" \o ToString(t) \o ":1", "og:" \o World \o ":" \o ToString(t) \o ":2">>]
      grefs == IF r.takes = {} THEN <<>> ELSE LET t == CHOOSE t \in r.takes : TRUE n == Cardinality(DOMAIN revs[t].objs) IN
               IF n <= 1 \/ h % 3 > 0 THEN SubSeq(gs[t], 1, 1) ELSE gs[t]
  IN [roots |-> r.roots, grefs |-> grefs] @@ contents @@ base
HistoryOf == [via |-> Vias[((h \div 11) % 5) + 1], cur |-> cur, revs |-> [k \in 1..Len(revs) |-> RevDoc(k)]]
DocOf == LET Sp == SpOf(view) IN [BaseDoc(Sp) EXCEPT !.spaces = [@ EXCEPT ![World] = HistoryOf]]
\* what is wrong is emitted less often
Emitted == Mine /\ (h \div 97) % Every = 0 => LET e == Expected IN
  (~e.ok /\ (h \div 13) % 8 # 0) \/ EmitCase(SectionCase(<<"history", World, revs, cur>>, DocOf, <<NoLayout, Layout(Seed(h, VSeed))>>, e))
============================================================================
