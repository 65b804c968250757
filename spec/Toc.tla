-------------------------------- MODULE Toc --------------------------------
(* Tables of contents, directory trees and the traversal of a notebook.     *)
(* Names are sequences of UTF-16 units.                                     *)
EXTENDS Base
SLASH == 47
DOT == <<46>>
DOTDOT == <<46, 46>>
RECURSIVE SplitAt(_, _)
SplitAt(u, acc) == IF u = <<>> THEN <<acc>> ELSE IF Head(u) = SLASH THEN <<acc>> \o SplitAt(Tail(u), <<>>) ELSE SplitAt(Tail(u), Append(acc, Head(u)))
Comps(u) == SelectSeq(SplitAt(u, <<>>), LAMBDA c : c # <<>> /\ c # DOT)
RECURSIVE Unescape(_)
Unescape(u) == IF Len(u) < 2 THEN u ELSE IF u[1] = 94 /\ u[2] = 77 THEN <<43>> \o Unescape(SubSeq(u, 3, Len(u)))
               ELSE IF u[1] = 94 /\ u[2] = 74 THEN <<44>> \o Unescape(SubSeq(u, 3, Len(u))) ELSE <<u[1]>> \o Unescape(Tail(u))
\* characters that no file of a notebook may have in its name
BadUnit(c) == c < 32 \/ c \in (127..159) \cup (8234..8238) \cup (8294..8297) \cup {34, 42, 58, 60, 62, 63, 92, 124}
\* names of devices: CON PRN AUX NUL COM1..9 LPT1..9
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Device(c) == LET u == [i \in 1..Len(c) |-> Upper(c[i])] IN
  u \in {<<67, 79, 78>>, <<80, 82, 78>>, <<65, 85, 88>>, <<78, 85, 76>>} \/ (Len(u) = 4 /\ SubSeq(u, 1, 3) \in {<<67, 79, 77>>, <<76, 80, 84>>} /\ u[4] \in 49..57)
LastDot(c) == LET S == {i \in 1..Len(c) : c[i] = 46} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
BadName(c) == LET k == LastDot(c) IN (\E i \in 1..Len(c) : BadUnit(c[i])) \/ Device(IF k = 0 THEN c ELSE SubSeq(c, 1, k - 1)) \/ (k > 0 /\ c[Len(c)] \in {32, 46})
\* names that are no path below a directory at all
Illegal(u) == (u # <<>> /\ Head(u) = SLASH) \/ Comps(u) = <<>> \/ \E i \in 1..Len(Comps(u)) : Comps(u)[i] = DOTDOT \/ BadName(Comps(u)[i])

\* directory trees: path (sequence of names) -> [t |-> "dir" | "file" | "link", ...]; links: abs, to
Gone == [t |-> "none", path |-> <<>>]
RECURSIVE Walk(_, _, _, _)
Walk(fs, at, cs, fuel) ==
  IF fuel = 0 THEN Gone
  ELSE IF cs = <<>> THEN [t |-> IF at = <<>> THEN "dir" ELSE fs[at].t, path |-> at]
  ELSE IF at # <<>> /\ fs[at].t # "dir" THEN Gone
  ELSE LET c == Head(cs) r == Tail(cs) p == Append(at, c) IN
    IF c = DOT THEN Walk(fs, at, r, fuel)
    ELSE IF c = DOTDOT THEN IF at = <<>> THEN Gone ELSE Walk(fs, SubSeq(at, 1, Len(at) - 1), r, fuel)
    ELSE IF p \notin DOMAIN fs THEN Gone
    ELSE IF fs[p].t = "link" THEN Walk(fs, IF fs[p].abs THEN <<>> ELSE at, fs[p].to \o r, fuel - 1)
    ELSE Walk(fs, p, r, fuel)
Real(fs, at, cs) == Walk(fs, at, cs, 12)
Inside(p, d) == Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d)) = d
\* what a table of contents may name: something below its directory, not the directory itself
Beneath(p, d) == Len(p) > Len(d) /\ Inside(p, d)

\* the listing of a table of contents: entries <<order (hi, lo), stored name>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
RECURSIVE InsertEntry(_, _)
\* e comes after all that are not greater
InsertEntry(e, q) == IF q = <<>> THEN <<e>> ELSE IF Leq(Head(q)[1], e[1]) THEN <<Head(q)>> \o InsertEntry(e, Tail(q)) ELSE <<e>> \o q
RECURSIVE SortEntries(_, _)
SortEntries(q, acc) == IF q = <<>> THEN acc ELSE SortEntries(Tail(q), InsertEntry(Head(q), acc))
RECURSIVE Dedup(_)
Dedup(q) == IF Len(q) < 2 THEN q ELSE IF q[1] = q[2] THEN Dedup(Tail(q)) ELSE <<q[1]>> \o Dedup(Tail(q))
Listing(es) == LET s == SortEntries(es, <<>>) IN Dedup([i \in 1..Len(s) |-> Unescape(s[i][2])])

BinName == <<79, 110, 101, 78, 111, 116, 101, 95, 82, 101, 99, 121, 99, 108, 101, 66, 105, 110>>
LastName(u) == Comps(u)[Len(Comps(u))]
Fail == [ok |-> FALSE]
\* files: [t |-> "file", c |-> "section" | "toc" | "bad", n |-> number of the section, es |-> entries]
SectionAt(k, fname) == [k |-> "section", n |-> k, fname |-> fname]
\* the directory d (a real path), the entries es of its table of contents
RECURSIVE Shown0(_, _, _, _), EntriesOf(_, _, _, _), GroupOf(_, _, _, _)
Shown0(fs, d, es, depth) ==
  IF depth > 8 THEN Fail ELSE
  LET names == Listing(es) IN
  IF \E i \in 1..Len(names) : Illegal(names[i]) THEN Fail ELSE
  LET reals == [i \in 1..Len(names) |-> Real(fs, d, Comps(names[i]))] IN
  IF \E i \in 1..Len(names) : reals[i].t # "none" /\ ~Beneath(reals[i].path, d) THEN Fail ELSE
  LET keep == SelectSeq([i \in 1..Len(names) |-> i], LAMBDA i : reals[i].t # "none" /\ LastName(names[i]) # BinName)
  IN EntriesOf(fs, [i \in 1..Len(keep) |-> <<LastName(names[keep[i]]), reals[keep[i]].path>>], depth, <<>>)
EntriesOf(fs, todo, depth, acc) ==
  IF todo = <<>> THEN [ok |-> TRUE, v |-> acc] ELSE
  LET name == Head(todo)[1] p == Head(todo)[2] f == IF p = <<>> THEN [t |-> "dir"] ELSE fs[p]
      e == IF f.t = "file" THEN (IF f.c = "section" THEN [ok |-> TRUE, v |-> SectionAt(f.n, name)] ELSE Fail) ELSE GroupOf(fs, name, p, depth)
  IN IF ~e.ok THEN Fail ELSE EntriesOf(fs, Tail(todo), depth, Append(acc, e.v))
TocExt == <<46, 111, 110, 101, 116, 111, 99, 50>>
IsToc(p) == LET n == p[Len(p)] IN Len(n) > 8 /\ SubSeq(n, Len(n) - 7, Len(n)) = TocExt
TocsIn(fs, d) == {p \in DOMAIN fs : Len(p) = Len(d) + 1 /\ Inside(p, d) /\ IsToc(p)}
GroupOf(fs, name, d, depth) ==
  LET ts == TocsIn(fs, d) IN
  IF ts = {} THEN Fail ELSE LET f == fs[CHOOSE p \in ts : TRUE] IN
  IF f.c # "toc" THEN Fail ELSE
  LET g == Shown0(fs, d, f.es, depth + 1) IN IF g.ok THEN [ok |-> TRUE, v |-> [k |-> "group", name |-> name, entries |-> g.v]] ELSE Fail

\* documents
SmallSp(k) == ("R" :> [BaseRoot EXCEPT !.objs["SS"] = Node("PageSeriesNode", <<PSp("ChildGraphSpaceElementNodes", <<"p1">>)>>)]) @@
  ("p1" :> [roots |-> [content |-> "M", metadata |-> "N"], objs |->
     ("M" :> Node("PageManifestNode", <<PRs("ContentChildNodes", <<"P">>)>>)) @@ ("P" :> Node("PageNode", <<>>)) @@
     ("N" :> [Node("PageMetadata", <<>>) EXCEPT !.p = Without(@, "CachedTitleString") \o <<PS("CachedTitleString", <<84, 101, 115, 116, 48 + k>>)>>])])
SecDoc(k) == [schema |-> "section", root |-> "R", spaces |-> [x \in {"R", "p1"} |-> [revs |-> <<SmallSp(k)[x]>>]], blobs |-> <<>>]
OrderBytes(o) == <<o[2] % 256, o[2] \div 256, o[1] % 256, o[1] \div 256>>
EntryObj(e) == Obj("TocContainer", <<PI("NotebookElementOrderingId", OrderBytes(e[1])), PS("FolderChildFilename", e[2])>>)
\* form 0: entries below the root; 1: below containers of two; 2: each below containers of its own
TocObjs(es, form) ==
  LET n == Len(es) id(i) == "e" \o ToString(i) box(i) == "x" \o ToString(i) all == [i \in 1..n |-> id(i)] IN
  [x \in {id(i) : i \in 1..n} |-> EntryObj(es[CHOOSE i \in 1..n : id(i) = x])] @@
  (CASE form = 0 -> None
     [] form = 1 -> ("x1" :> Obj("TocContainer", <<PRs("TocChildren", SubSeq(all, 1, n \div 2))>>)) @@ ("x2" :> Obj("TocContainer", <<PRs("TocChildren", <<"x3">> \o SubSeq(all, (n \div 2) + 1, n))>>)) @@
                       ("x3" :> Obj("TocContainer", <<>>))
     [] OTHER -> [x \in {box(i) : i \in 1..n} |-> LET i == CHOOSE i \in 1..n : box(i) = x IN Obj("TocContainer", <<PRs("TocChildren", <<id(i)>>)>>)])
TocKids(es, form) == LET n == Len(es) IN CASE form = 0 -> [i \in 1..n |-> "e" \o ToString(i)] [] form = 1 -> <<"x1", "x2">> [] OTHER -> [i \in 1..n |-> "x" \o ToString(i)]
\* col: <<>> or <<bytes>>
TocDoc(es, form, col) ==
  [schema |-> "toc", root |-> "R", blobs |-> <<>>, spaces |-> [R |-> [revs |-> <<[roots |-> [content |-> "top"],
     objs |-> ("top" :> Obj("TocContainer", <<PRs("TocChildren", TocKids(es, form))>> \o OneIf(col # <<>>, PI("SectionColor", col[1])))) @@ TocObjs(es, form)]>>]]]
RECURSIVE EntryViews(_)
EntryViews(es) == [i \in 1..Len(es) |-> IF es[i].k = "section" THEN [k |-> "section", section |-> Expect(SmallSp(es[i].n), es[i].fname).v]
                                        ELSE [k |-> "group", name |-> es[i].name, entries |-> EntryViews(es[i].entries)]]
RECURSIVE JoinPath(_)
JoinPath(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<SLASH>> \o JoinPath(Tail(p))
Root0 == <<64, 82, 79, 79, 84, 47>>
FileItem(p, f) ==
  [p |-> JoinPath(p)] @@
  CASE f.t = "dir" -> [t |-> "dir"]
    [] f.t = "link" -> [t |-> "link", to |-> (IF f.abs THEN Root0 ELSE <<>>) \o JoinPath(f.to)]
    [] f.c = "section" -> [t |-> "file", doc |-> SecDoc(f.n)]
    [] f.c = "toc" -> [t |-> "file", doc |-> TocDoc(f.es, f.form, f.col)]
    [] OTHER -> [t |-> "file", bytes |-> <<1, 2, 3>>]
TreeItems(fs) == LET ps == SetToSeq(DOMAIN fs) dirs == SelectSeq(ps, LAMBDA p : fs[p].t = "dir") rest == SelectSeq(ps, LAMBDA p : fs[p].t # "dir") q == dirs \o rest IN
                 [i \in 1..Len(q) |-> FileItem(q[i], fs[q[i]])]
============================================================================
