------------------------------ MODULE Notebook ------------------------------
(* P12, P13: reading a notebook step by step.  Every entry name of a pool,  *)
(* in the table of contents of the notebook, of a group and of a nested     *)
(* group; every pair of entries in every order; random longer lists.  The   *)
(* reader never opens a file outside the directory whose table of contents  *)
(* names it, and shows what the listing says.                               *)
EXTENDS Toc
CONSTANTS Part     \* "names", "orders", "lists", "long"
\* names, written as numbers: capitals and digits of the pool
A == 65  B == 66  D == 68  E == 69  S == 83
One == <<46, 111, 110, 101>>
a == <<A>> \o One   b == <<B>> \o One
nb == <<110, 98>>  nbx == <<110, 98, 120>>  outd == <<111, 117, 116>>
g == <<103>>  k == <<107>>  hh == <<104>>  em == <<101>>  ww == <<119>>  ss == <<115>>
plusName == <<A, 43, B>> \o One  commaName == <<A, 44, B>> \o One  euro == <<8364>> \o One
badOne == <<98, 97, 100>> \o One  tocOne == <<116>> \o One  noExt == <<110, 111>>
LA == <<76, A>> \o One  LG == <<76, 71>>  LO == <<76, 79>> \o One  LX == <<76, 88>>  LD == <<76, D>>  LU == <<76, 85>>
LP == <<76, 80>> \o One  LPX == <<76, 80, 88>>  LAA == <<76, A, A>> \o One  LAO == <<76, A, 79>> \o One  LL == <<76, 76>> \o One  LLO == <<76, 76, 79>> \o One
LLOOP == <<76, 48>>  s1 == <<S>> \o One
upL == <<117, 112>>  meL == <<109, 101>>  outL == <<111>>  sibL == <<115, 105, 98>> \o One  dOne == <<D>> \o One  eOne == <<E>> \o One
bin2 == BinName \o <<50>>
\* ordinary names: _A.one A_.one -A.one A-.one A,.one ;A.one ' A.one' 'A .one' 'A  B.one' 'A(no-break space)B.one' '(wide space)A.one' A..one A.-one _ A.B.one
OddNames == << <<95>> \o a, <<A, 95>> \o One, <<45>> \o a, <<A, 45>> \o One, <<A, 44>> \o One, <<59>> \o a, <<32>> \o a, <<A, 32>> \o One, <<A, 32, 32, B>> \o One,
  <<A, 160, B>> \o One, <<12288>> \o a, <<A, 46>> \o One, <<A, 46, 45, 111, 110, 101>>, <<95>>, <<A, 46, B>> \o One, <<32, 45, 45, 32>>, <<39>> \o a, <<35, 37, 38, 64>> \o One>>
File(n) == [t |-> "file", c |-> "section", n |-> n]
TocFile(es) == [t |-> "file", c |-> "toc", es |-> es, form |-> 0, col |-> <<>>]
Dir == [t |-> "dir"]
Link(to) == [t |-> "link", abs |-> FALSE, to |-> to]
ALink(to) == [t |-> "link", abs |-> TRUE, to |-> to]
Bad == [t |-> "file", c |-> "bad"]
TocName(x) == x \o TocExt
Ord(i) == <<0, i>>
FsBase == (
  (<<nb>> :> Dir) @@ (<<nb, a>> :> File(1)) @@ (<<nb, b>> :> File(2)) @@ (<<nb, plusName>> :> File(3)) @@ (<<nb, commaName>> :> File(4)) @@ (<<nb, euro>> :> File(5)) @@
  [x \in {<<nb, OddNames[j]>> : j \in 1..Len(OddNames)} |-> File(14)] @@ (<<nb, bin2 \o <<95>> >> :> Dir) @@ (<<nb, bin2 \o <<95>>, TocName(<<E>>)>> :> TocFile(<<>>)) @@
  (<<nb, badOne>> :> Bad) @@ (<<nb, tocOne>> :> TocFile(<<>>)) @@ (<<nb, noExt>> :> File(6)) @@
  (<<nb, g>> :> Dir) @@ (<<nb, g, dOne>> :> File(7)) @@ (<<nb, g, a>> :> File(8)) @@ (<<nb, g, <<110>> >> :> Bad) @@
  (<<nb, g, upL>> :> Link(<<DOTDOT>>)) @@ (<<nb, g, meL>> :> Link(<<DOT>>)) @@ (<<nb, g, outL>> :> Link(<<DOTDOT, DOTDOT, outd>>)) @@ (<<nb, g, sibL>> :> Link(<<DOTDOT, a>>)) @@
  (<<nb, g, BinName>> :> Dir) @@ (<<nb, g, BinName, TocName(<<90>>)>> :> TocFile(<< <<Ord(1), s1>> >>)) @@ (<<nb, g, BinName, s1>> :> File(20)) @@
  (<<nb, g, k>> :> Dir) @@ (<<nb, g, k, eOne>> :> File(9)) @@ (<<nb, g, k, a>> :> File(10)) @@
  (<<nb, hh>> :> Dir) @@ (<<nb, hh, a>> :> File(11)) @@
  (<<nb, em>> :> Dir) @@ (<<nb, em, TocName(<<E>>)>> :> TocFile(<<>>)) @@
  (<<nb, ww>> :> Dir) @@ (<<nb, ww, TocName(<<E>>)>> :> Bad) @@
  (<<nb, ss>> :> Dir) @@ (<<nb, ss, TocName(<<E>>)>> :> File(12)) @@
  (<<nb, BinName>> :> Dir) @@ (<<nb, BinName, TocName(<<90>>)>> :> TocFile(<< <<Ord(1), s1>> >>)) @@ (<<nb, BinName, s1>> :> File(21)) @@
  (<<nb, bin2>> :> Dir) @@ (<<nb, bin2, TocName(<<90>>)>> :> TocFile(<< <<Ord(1), s1>> >>)) @@ (<<nb, bin2, s1>> :> File(13)) @@
  (<<nb, LA>> :> Link(<<a>>)) @@ (<<nb, LG>> :> Link(<<g>>)) @@ (<<nb, LO>> :> Link(<<DOTDOT, outd, s1>>)) @@ (<<nb, LX>> :> Link(<<DOTDOT, outd>>)) @@
  (<<nb, LD>> :> Link(<< <<71>> >>)) @@ (<<nb, LU>> :> Link(<<DOTDOT>>)) @@ (<<nb, LP>> :> Link(<<DOTDOT, nbx, s1>>)) @@ (<<nb, LPX>> :> Link(<<DOTDOT, nbx>>)) @@
  (<<nb, LAA>> :> ALink(<<nb, a>>)) @@ (<<nb, LAO>> :> ALink(<<outd, s1>>)) @@ (<<nb, LL>> :> Link(<<LA>>)) @@ (<<nb, LLO>> :> Link(<<LO>>)) @@ (<<nb, LLOOP>> :> Link(<<LLOOP>>)) @@
  (<<outd>> :> Dir) @@ (<<outd, s1>> :> File(30)) @@ (<<outd, a>> :> File(31)) @@ (<<outd, TocName(<<E>>)>> :> TocFile(<< <<Ord(1), s1>> >>)) @@
  (<<nbx>> :> Dir) @@ (<<nbx, s1>> :> File(32)) @@ (<<nbx, TocName(<<E>>)>> :> TocFile(<< <<Ord(1), s1>> >>)))
ASSUME TCLOk == TLCSet(6, TLCEval(FsBase))
J(x, y) == x \o <<SLASH>> \o y
\* entry names
Good == <<a, b, <<A, 94, 77, B>> \o One, <<A, 94, 74, B>> \o One, euro, noExt, g, em, LA, LG, LAA, LL, bin2, BinName, LD, LLOOP, <<90>> \o One, J(DOT, a), J(a, <<>>), J(g, <<>>), J(g, dOne), J(g, a),
          J(LG, dOne), J(g, J(DOT, a)), J(J(g, <<>>), dOne), J(g, k), J(J(g, upL), a), J(LU, J(nb, a)), J(LU, <<71>>), J(LX, <<71>>), J(a, b), J(DOT, BinName), J(g, sibL), dOne, eOne, k, sibL,
          <<A, 94>> \o One, <<94, 94, 77>>, <<A, 94, 109, B>> \o One, <<A, 94, 74>> \o One, bin2 \o <<95>>, <<45, 45>>, <<90, 95>> \o One, <<67, 79, 78, 83>> \o One>> \o OddNames
Evil == <<badOne, tocOne, hh, ww, ss, <<>>, DOT, J(DOT, DOT), DOTDOT, J(DOTDOT, a), J(DOTDOT, J(nb, a)), J(g, J(DOTDOT, a)), J(DOTDOT, J(nbx, s1)), J(DOTDOT, J(outd, s1)), J(DOT, J(DOTDOT, J(outd, s1))),
          <<SLASH>>, J(<<>>, a), Root0 \o J(nb, a), Root0 \o J(outd, s1), J(<<>>, J(<<116, 109, 112>>, a)), LO, LX, LU, LP, LPX, LAO, LLO, J(LX, s1), J(LU, J(outd, s1)), J(LU, J(nbx, s1)), J(LPX, s1),
          J(LX, a), J(g, J(outL, s1)), J(J(g, upL), LO), J(g, outL), J(g, upL), J(g, meL), meL, upL, outL, J(<<A, 63>>, a), <<A, 58, B>> \o One, <<A, 92, B>> \o One, J(DOTDOT, DOTDOT), J(a, DOTDOT), J(J(a, DOTDOT), b),
          J(<<71>>, J(DOTDOT, a)), J(J(<<71>>, DOTDOT), J(DOTDOT, J(outd, s1))), <<46, 46, SLASH>>, <<7>> \o One>>
All0 == Good \o Evil
NA == Len(All0) NG == Len(Good)
Orders == << <<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 256>>, <<1, 0>>, <<32767, 65535>>, <<32768, 0>>, <<65535, 65535>> >>
NOr == Len(Orders)
Colors == << <<>>, << <<1, 2, 3, 4>> >>, << <<255, 255, 255, 255>> >>, << <<0, 0, 0, 0>> >> >>
InOrder(ns) == [i \in 1..Len(ns) |-> <<Ord(i), ns[i]>>]
\* a configuration: entries of nb, of g, of k, form, colour, way of opening
Deflt == [n |-> InOrder(<<g, a>>), g |-> InOrder(<<k, dOne>>), k |-> InOrder(<<eOne>>), form |-> 0, col |-> <<>>, open |-> ""]
Opens == <<"", "bare", "dot", "sub", "link">>
PairNames == <<a, b, g, euro, <<A, 94, 77, B>> \o One, J(DOT, a), LD>>
NP == Len(PairNames)
RandEntries(s, m) == [i \in 1..m |-> <<Pick(Sub(s, 3 * i), 1, Orders), IF Coin(Sub(s, 3 * i), 2, 1, 25) THEN Pick(Sub(s, 3 * i), 3, Evil) ELSE Pick(Sub(s, 3 * i), 4, Good)>>]
Total == CASE Part = "names" -> NA * 6 [] Part = "orders" -> NP * NP * NOr * NOr [] Part = "long" -> 1200 [] OTHER -> 4000
LongNames == <<a, b, euro, <<A, 94, 77, B>> \o One, <<A, 94, 74, B>> \o One, noExt, J(DOT, a), dOne, LA, <<65, 90>> \o One>>
LongEntries(s, m) == [x \in 1..m |-> <<Ord(Below(Sub(s, 3 * x), 1 + Below(s, 4))), Pick(Sub(s, 3 * x), 4, LongNames)>>]
Conf(i) ==
  CASE Part = "names" -> LET nm == All0[(i \div 6) + 1] m == i % 6 h == Opens[(i % 5) + 1] IN
         CASE m = 0 -> [Deflt EXCEPT !.n = InOrder(<<nm>>), !.open = h] [] m = 1 -> [Deflt EXCEPT !.g = InOrder(<<nm, a>>), !.open = h] [] m = 2 -> [Deflt EXCEPT !.k = InOrder(<<nm>>), !.form = 1, !.open = h]
           [] m = 3 -> [Deflt EXCEPT !.n = InOrder(<<a, nm, b>>), !.form = 2, !.open = h] [] m = 4 -> [Deflt EXCEPT !.n = InOrder(<<LG, nm>>), !.col = Colors[(i % 4) + 1], !.open = h]
           [] OTHER -> [Deflt EXCEPT !.g = InOrder(<<dOne, nm>>), !.n = InOrder(<<LG>>), !.open = h]
    [] Part = "orders" -> LET x == PairNames[(i % NP) + 1] y == PairNames[((i \div NP) % NP) + 1] o == Orders[((i \div (NP * NP)) % NOr) + 1] q == Orders[((i \div (NP * NP * NOr)) % NOr) + 1] IN
         [Deflt EXCEPT !.n = << <<o, x>>, <<q, y>>, <<Ord(2), b>> >>, !.form = i % 3, !.col = Colors[(i % 4) + 1]]
    [] Part = "long" -> LET s == Seed(i, VSeed) IN
         [Deflt EXCEPT !.n = LongEntries(Sub(s, 1), 18 + Below(Sub(s, 2), 50)), !.g = LongEntries(Sub(s, 3), 1 + Below(Sub(s, 4), 30)), !.form = i % 3]
    [] OTHER -> LET s == Seed(i, VSeed) IN
         [n |-> RandEntries(Sub(s, 1), Below(Sub(s, 2), 8)), g |-> RandEntries(Sub(s, 3), Below(Sub(s, 4), 5)), k |-> RandEntries(Sub(s, 5), Below(Sub(s, 6), 4)),
          form |-> Below(Sub(s, 7), 3), col |-> Pick(s, 8, Colors), open |-> Pick(s, 9, Opens)]
NbToc == <<nb, TocName(<<110>>)>>
FsOf(c) == TLCGet(6) @@ (NbToc :> [TocFile(c.n) EXCEPT !.form = c.form, !.col = c.col]) @@ (<<nb, g, TocName(<<D>>)>> :> [TocFile(c.g) EXCEPT !.form = c.form, !.col = <<<<9, 8, 7, 6>>>>]) @@
  (<<nb, g, k, TocName(<<D>>)>> :> TocFile(c.k)) @@ (<< <<108>> >> :> Link(<<nb>>))

--------------------------------------------------------------------------
(* The traversal: frames <<directory, name, entries still to do, entries shown>>; the innermost is last. *)
VARIABLES i, fs, frames, opened, status, shown
Open0(d, es) ==    \* what the table of contents of directory d makes the reader look at
  LET names == Listing(es) reals == [j \in 1..Len(names) |-> Real(fs, d, Comps(names[j]))] IN
  IF (\E j \in 1..Len(names) : Illegal(names[j])) \/ (\E j \in 1..Len(names) : reals[j].t # "none" /\ ~Beneath(reals[j].path, d)) THEN Fail
  ELSE LET keep == SelectSeq([j \in 1..Len(names) |-> j], LAMBDA j : reals[j].t # "none" /\ LastName(names[j]) # BinName)
       IN [ok |-> TRUE, todo |-> [j \in 1..Len(keep) |-> <<LastName(names[keep[j]]), reals[keep[j]].path>>]]
Enter(d, name, toc, at) ==
  LET f == fs[toc] o == IF f.t = "file" /\ f.c = "toc" THEN Open0(d, f.es) ELSE Fail IN
  /\ opened' = opened \cup {<<toc, at>>}
  /\ IF o.ok /\ Len(frames) < 9 THEN frames' = Append(frames, <<d, name, o.todo, <<>>>>) /\ status' = "reading"
     ELSE frames' = frames /\ status' = IF Len(frames) < 9 THEN "failed" ELSE "endless"
Mine0 == {j \in 0..(Min2(Limit, Total) - 1) : j % Shards = Shard}
Init == /\ i \in Mine0 /\ fs = <<>> /\ frames = <<>> /\ opened = {} /\ status = "start" /\ shown = <<>>
Start == status = "start" /\ fs = <<>> /\ fs' = FsOf(Conf(Idx(i, Total))) /\ UNCHANGED <<i, frames, opened, status, shown>>
Begin == status = "start" /\ fs # <<>> /\ Enter(<<nb>>, <<>>, NbToc, <<nb>>) /\ UNCHANGED <<i, fs, shown>>
Top == frames[Len(frames)]
ShowEntry(fr, v) == [fr EXCEPT ![Len(fr)][3] = Tail(@), ![Len(fr)][4] = Append(@, v)]
Section == /\ status = "reading" /\ Top[3] # <<>>
           /\ LET p == Head(Top[3])[2] IN p # <<>> /\ fs[p].t = "file" /\ opened' = opened \cup {<<p, Top[1]>>} /\
                (IF fs[p].c = "section" THEN frames' = ShowEntry(frames, SectionAt(fs[p].n, Head(Top[3])[1])) /\ status' = status ELSE frames' = frames /\ status' = "failed")
           /\ UNCHANGED <<i, fs, shown>>
Group == /\ status = "reading" /\ Top[3] # <<>>
         /\ LET p == Head(Top[3])[2] ts == TocsIn(fs, p) IN
              (p = <<>> \/ fs[p].t = "dir") /\
              (IF ts = {} THEN status' = "failed" /\ UNCHANGED <<frames, opened>> ELSE Enter(p, Head(Top[3])[1], CHOOSE t \in ts : TRUE, p))
         /\ UNCHANGED <<i, fs, shown>>
Leave == /\ status = "reading" /\ Top[3] = <<>>
         /\ IF Len(frames) = 1 THEN status' = "done" /\ shown' = Top[4] /\ frames' = frames
            ELSE LET outer == SubSeq(frames, 1, Len(frames) - 1) IN
                 frames' = ShowEntry(outer, [k |-> "group", name |-> Top[2], entries |-> Top[4]]) /\ UNCHANGED <<status, shown>>
         /\ UNCHANGED <<i, fs, opened>>
Next == Start \/ Begin \/ Section \/ Group \/ Leave
Spec == Init /\ [][Next]_<<i, fs, frames, opened, status, shown>> /\ WF_<<i, fs, frames, opened, status, shown>>(Next)
\* P13: every file that is opened is inside the directory whose table of contents named it, and inside the notebook
Contained == \A x \in opened : Inside(x[1], x[2]) /\ Inside(x[1], <<nb>>)
\* P12: the reader shows the listing
Agrees == LET c == Conf(Idx(i, Total)) want == Shown0(fs, <<nb>>, c.n, 0) IN
          /\ status = "done" => want.ok /\ want.v = shown
          /\ status = "failed" => ~want.ok
Outside == << <<84, 101, 115, 116, 78>>, <<84, 101, 115, 116, 79>>, <<84, 101, 115, 116, 80>> >>
View == [color |-> IF Conf(Idx(i, Total)).col = <<>> THEN <<>> ELSE LET v == Conf(Idx(i, Total)).col[1] IN << <<255 - v[4], v[1], v[2], v[3]>> >>, entries |-> EntryViews(shown)]
OpenPath(c) == IF c.open = "link" THEN J(<<108>>, NbToc[2]) ELSE J(nb, NbToc[2])
CaseOf == LET c == Conf(Idx(i, Total)) IN
  [op |-> "notebook", id |-> <<"nb", Part, Idx(i, Total), c.n, c.g, c.k>>, tree |-> TreeItems(fs), open |-> OpenPath(c), rel |-> (IF c.open = "link" THEN "" ELSE c.open), forbidden |-> Outside,
   expect |-> IF status = "done" THEN [ok |-> TRUE, v |-> View]
ELSE [ok |-> FALSE]]
Emitted == status \in {"done", "failed", "endless"} => EmitCase(CaseOf)
\* P04: no directory is entered from within itself
Ending == status # "endless" /\ \A x, y \in 1..Len(frames) : x < y => Beneath(frames[y][1], frames[x][1])
Sound == Contained /\ Agrees /\ Ending
============================================================================
