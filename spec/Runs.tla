------------------------------- MODULE Runs -------------------------------
(* P08: a writer appends runs to a paragraph; every sequence of at most     *)
(* MaxRuns kinds of run is reached.  Run styles, run data and ink objects   *)
(* stay aligned with the runs.                                              *)
EXTENDS Base
CONSTANTS MaxRuns, Every
RunKindSet == {"plain", "math", "ink", "space", "break", "both"}
KindNo == [plain |-> 1, math |-> 2, ink |-> 3, space |-> 4, break |-> 5, both |-> 6]
VARIABLES runs, h
Init == runs = <<>> /\ h \in {i * 3 + 1000 * (VSeed % 60) : i \in 0..7}
Write(k) == runs' = Append(runs, k) /\ h' = (h * 37 + KindNo[k] * 101 + 5) % 65521
Next == Len(runs) < MaxRuns /\ \E k \in RunKindSet : Write(k)
\* variations of the paragraph: how its text is stored, whether the ink objects are stored
TextMode == h % 4
NoInks == (h \div 4) % 5 = 0
\* an ink run is one that is neither space nor break
IsInk(k) == k \in {"ink", "both"}
Emb(k) == k \in {"ink", "space", "break", "both"}
StyleFor(s, k) ==
  IF k = "both" THEN Obj("ParagraphStyleObject", <<PB("TextRunIsEmbeddedObject", TRUE), PI("FontSize", RU16(s)), PB("MathFormatting", TRUE)>>) ELSE RunStyleObj(s, k)
DataFor(s, k, i) ==
  CASE k = "both" -> Shuffle(s, Attrs("MathInline", s, 1, 2) \o <<PI("EmbeddedInkStartX", LE4(i))>>)
    [] k = "ink" -> Shuffle(s, Without(RunSet(s, k), "EmbeddedInkOffsetHoriz") \o <<PI("EmbeddedInkOffsetHoriz", LE4(i))>>)
    [] k = "space" -> <<PI("EmbeddedInkSpaceWidth", LE4(i)), Val("EmbeddedInkSpaceHeight", "f32", s)>>
    [] k = "math" -> Without(RunSet(s, k), "MathInlineObjectCount") \o <<PI("MathInlineObjectCount", LE4(i))>>
    [] OTHER -> RunSet(s, k)
\* a stroke that identifies its ink object
InkObj(id, i) == [x \in DOMAIN BaseInk(id) |-> IF x = id THEN [k |-> "InkDataNode", b |-> <<>>, p |-> <<PRs("InkStrokes", <<id \o "k">>), PV("InkBoundingBox", LE4(i) \o LE4(0) \o LE4(1000) \o LE4(1000))>>] ELSE BaseInk(id)[x]]
ParaOf(rs, hh) ==
  LET n == Len(rs) s == Seed(hh, n) inkn == Cardinality({i \in 1..n : IsInk(rs[i])})
      tm == hh % 4 noInks == (hh \div 4) % 5 = 0
      sid(i) == "r" \o ToString(i) jid(i) == "j" \o ToString(i)
      text == (IF tm \in {0, 1} THEN <<PS("RichEditTextUnicode", <<72, 8364, 33>>)>> ELSE <<>>) \o (IF tm \in {1, 2} THEN <<PV("TextExtendedAscii", <<65, 228, 255>>)>> ELSE <<>>)
      ps == <<PR("ParagraphStyle", "S")>> \o OneIf(n > 0, PRs("TextRunFormatting", [i \in 1..n |-> sid(i)])) \o
            OneIf(n > 1, PV("TextRunIndex", Concat([i \in 1..(n - 1) |-> LE4(i * 3)]))) \o
            OneIf(inkn > 0 /\ ~noInks, PRs("TextRunDataObject", [i \in 1..inkn |-> jid(i)])) \o
            OneIf(\E i \in 1..n : rs[i] # "plain", PSets("TextRunData", [i \in 1..n |-> DataFor(Sub(s, i), rs[i], i)])) \o text
  IN ("X" :> Node("RichTextNode", Shuffle(s, ps))) @@
     Union([i \in 1..n |-> (sid(i) :> StyleFor(Sub(s, 40 + i), rs[i]))]) @@
     Union([i \in 1..inkn |-> InkObj(jid(i), i)])
SpFor(rs, hh) == [BaseSp EXCEPT !["p1"].objs = ParaOf(rs, hh) @@ @]
\* the paragraph X in the view
Para(e) == e.v.series[1][1].contents[1].items[2].contents[1]
Mine == (h \div 3) % Shards = Shard
Sound == Mine =>
  LET e == Expect(SpFor(runs, h), Fname) x == Para(e) n == Len(runs)
      pos(f(_)) == SelectSeq([i \in 1..n |-> i], LAMBDA i : f(runs[i]))
      mathAt == pos(LAMBDA k : k \in {"math", "both"})
      inkAt == pos(IsInk) noInks == NoInks
      embAt == pos(LAMBDA k : Emb(k) /\ ~(noInks /\ IsInk(k)))
  IN /\ e.ok
     /\ Len(x.runs) = n /\ Len(x.math) = Len(mathAt) /\ Len(x.embedded) = Len(embAt)
     /\ \A j \in 1..Len(mathAt) : runs[mathAt[j]] = "math" => x.math[j].args = LE4(mathAt[j])
     /\ \A j \in 1..Len(embAt) : LET i == embAt[j] v == x.embedded[j] IN
          /\ v.k = CASE runs[i] = "space" -> "espace" [] runs[i] = "break" -> "ebreak" [] OTHER -> "eink"
          /\ runs[i] = "space" => v.width = LE4(i)
          /\ runs[i] = "ink" => v.ink.offset_horizontal = <<LE4(i)>>
          /\ IsInk(runs[i]) => LET m == CHOOSE m \in 1..Len(inkAt) : inkAt[m] = i IN v.ink.bb[1][1] = Mul(<<>>, Nat32(LE4(m)))
     /\ x.text = IF embAt # <<>> THEN <<>> ELSE CASE TextMode \in {0, 1} -> <<72, 8364, 33>> [] TextMode = 2 -> <<65, 228, 255>> [] OTHER -> <<>>
     /\ \A i \in 1..n : x.runs[i].math = (runs[i] \in {"math", "both"})
Emitted == Mine /\ h % Every = 0 =>
  LET Sp == SpFor(runs, h) IN EmitCase(SectionCase(<<"runs", runs, h>>, BaseDoc(Sp), <<NoLayout>>, Expect(Sp, Fname)))
============================================================================
