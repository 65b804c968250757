------------------------------- MODULE Pages -------------------------------
(* P16: a writer adds page series and pages to a section; pages may appear  *)
(* in several series or not at all, may be missing or be missing.        *)
EXTENDS Base
CONSTANTS MaxSteps, Every
PageNames == <<"pA", "pB", "pC">>
VARIABLES series, h     \* series: sequences of page numbers; 4 = no such space
Init == series = <<>> /\ h \in {j * 5 + 100 * (VSeed % 500) : j \in 0..3}
Size == Len(series) + Len(Concat(series))
AddSeries == series' = Append(series, <<>>) /\ h' = (h * 53 + 11) % 65521
AddPage(p) == /\ series # <<>>
              /\ LET l == Len(series) IN series' = [series EXCEPT ![l] = Append(@, p)]
              /\ h' = (h * 53 + 17 * p + 29) % 65521
Next == Size < MaxSteps /\ (AddSeries \/ \E p \in 1..4 : AddPage(p))
Ref1(p) == CASE p = 4 -> "pZ" [] OTHER -> PageNames[p]
PSp1(s) == IF s = <<>> THEN <<>> ELSE <<PSp("ChildGraphSpaceElementNodes", [j \in 1..Len(s) |-> Ref1(s[j])])>>
RootOf(ser) ==
  [BaseRoot EXCEPT !.objs =
    ("SN" :> Node("SectionNode", OneIf(ser # <<>>, PRs("ElementChildNodes", [i \in 1..Len(ser) |-> "SS" \o ToString(i)])))) @@
    [x \in {"SS" \o ToString(i) : i \in 1..Len(ser)} |-> LET i == CHOOSE i \in 1..Len(ser) : x = "SS" \o ToString(i) IN
       Node("PageSeriesNode", OneIf((h + i) % 2 = 0, PRs("MetaDataObjectsAboveGraphSpace", <<"SM", "SM">>)) \o PSp1(ser[i]) \o OneIf((h + i) % 3 = 0, [n |-> "0x00003A07", t |-> 11, r |-> << >>]))] @@ @]
\* page number i has level i, author i, height i and one outline with text i
PageOf(i) ==
  [roots |-> [content |-> "M", metadata |-> "N"], objs |->
    [x \in {"M", "S", "a"} |-> BaseObjs[x]] @@
    ("N" :> Node("PageMetadata", <<PI("PageLevel", LE4(i))>>)) @@
    ("P" :> Node("PageNode", <<PRs("ElementChildNodes", <<"O">>), PS("Author", <<64 + i>>), PI("PageHeight", LE4(i))>> \o OneIf(i = 2, PRs("StructureElementChildNodes", <<"T">>)))) @@
    ("T" :> Node("TitleNode", <<PRs("ElementChildNodes", <<"TO">>)>>)) @@ ("TO" :> Node("OutlineNode", <<PRs("ElementChildNodes", <<"TE">>)>>)) @@
    ("TE" :> Node("OutlineElementNode", ElementRefs("") \o <<PRs("ContentChildNodes", <<"TX">>)>>)) @@
    ("TX" :> Node("RichTextNode", <<PR("ParagraphStyle", "S"), PS("RichEditTextUnicode", <<84, 48 + i>>)>>)) @@
    ("O" :> Node("OutlineNode", <<PRs("ElementChildNodes", <<"E">>)>>)) @@
    ("E" :> Node("OutlineElementNode", ElementRefs("") \o <<PRs("ContentChildNodes", <<"X">>)>>)) @@
    ("X" :> Node("RichTextNode", <<PR("ParagraphStyle", "S"), PS("RichEditTextUnicode", <<65, 48 + i>>)>>))]
SpFor(ser) == ("R" :> RootOf(ser)) @@ [x \in ToSet(PageNames) |-> PageOf(CHOOSE i \in 1..3 : PageNames[i] = x)]
Shown(ser) == [i \in 1..Len(ser) |-> SelectSeq(ser[i], LAMBDA p : p # 0)]
Mine == (h \div 5) % Shards = Shard
Sound == Mine =>
  LET e == Expect(SpFor(series), Fname) IN
  IF \E i \in 1..Len(series) : 4 \in ToSet(series[i]) THEN ~e.ok
  ELSE /\ e.ok
       /\ [i \in 1..Len(e.v.series) |-> [j \in 1..Len(e.v.series[i]) |-> LET p == e.v.series[i][j] IN <<p.level, p.author, p.height, p.title_text>>]] =
          [i \in 1..Len(series) |-> [j \in 1..Len(Shown(series)[i]) |-> LET q == Shown(series)[i][j] IN
             <<LE4(q), <<<<64 + q>>>>, <<LE4(q)>>, <<IF q = 2 THEN <<84, 50>> ELSE <<65, 48 + q>>>>>>]]
Emitted == Mine /\ h % Every = 0 =>
  LET Sp == SpFor(series) IN EmitCase(SectionCase(<<"pages", series, h>>, BaseDoc(Sp), <<NoLayout, Layout(Seed(h, 1))>>, Expect(Sp, Fname)))
============================================================================
