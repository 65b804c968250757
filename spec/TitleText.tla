----------------------------- MODULE TitleText -----------------------------
(* P16: the title text of a page, for every title block of at most two      *)
(* outlines and page contents of at most two outlines, each starting in     *)
(* every way.                                                               *)
EXTENDS Base
Forms == <<"none", "group", "bare", "image", "emptytext", "text", "second", "imagetext", "inktext", "notext">>
NFo == Len(Forms)
Lists == << <<>> >> \o [i \in 1..NFo |-> <<i>>] \o [i \in 1..(NFo * NFo) |-> <<((i - 1) \div NFo) + 1, ((i - 1) % NFo) + 1>>]
NLi == Len(Lists)
Total == (NLi + 1) * NLi
\* title: 0 = there is no title block
Parts(i) == <<i \div NLi, i % NLi>>
\* outline id starting with form f, all texts marked with m
El(id, more) == (id :> Node("OutlineElementNode", ElementRefs("") \o more))
Tx(id, more) == (id :> Node("RichTextNode", <<PR("ParagraphStyle", "S")>> \o more))
Out(id, items) == (id :> Node("OutlineNode", OneIf(items # <<>>, PRs("ElementChildNodes", items))))
Con(xs) == PRs("ContentChildNodes", xs)
Lead(id, f, m) ==
  LET e == id \o "e" e2 == id \o "f" t == id \o "t" g == id \o "g" i == id \o "i" txt == Tx(t, <<PS("RichEditTextUnicode", <<m, 46>>)>>) img == (i :> Node("ImageNode", <<>>)) IN
  CASE f = "none" -> Out(id, <<>>)
    [] f = "group" -> Out(id, <<g, e>>) @@ (g :> Node("OutlineGroup", <<PRs("ElementChildNodes", <<e2>>)>>)) @@ El(e2, <<Con(<<t>>)>>) @@ El(e, <<Con(<<t>>)>>) @@ txt
    [] f = "bare" -> Out(id, <<e>>) @@ El(e, <<>>)
    [] f = "image" -> Out(id, <<e>>) @@ El(e, <<Con(<<i>>)>>) @@ img
    [] f = "emptytext" -> Out(id, <<e, e2>>) @@ El(e, <<Con(<<i>>)>>) @@ Tx(i, <<PS("RichEditTextUnicode", <<>>)>>) @@ El(e2, <<Con(<<t>>)>>) @@ txt
    [] f = "text" -> Out(id, <<e, e2>>) @@ El(e, <<Con(<<t, i>>)>>) @@ txt @@ img @@ El(e2, <<>>)
    [] f = "second" -> Out(id, <<e, e2>>) @@ El(e, <<PRs("ElementChildNodes", <<e2>>)>>) @@ El(e2, <<Con(<<t>>)>>) @@ txt
    [] f = "imagetext" -> Out(id, <<e>>) @@ El(e, <<Con(<<i, t>>)>>) @@ img @@ txt
    [] f = "inktext" -> Out(id, <<e>>) @@ El(e, <<Con(<<i, t>>)>>) @@ txt @@
         Tx(i, <<PS("RichEditTextUnicode", <<90>>), PRs("TextRunFormatting", <<"S4">>), PSets("TextRunData", << <<Val("EmbeddedInkSpaceWidth", "f32", S0), Val("EmbeddedInkSpaceHeight", "f32", S0)>> >>)>>)
    [] OTHER -> Out(id, <<e>>) @@ El(e, <<Con(<<i>>)>>) @@ Tx(i, <<>>)
\* what the outline starts with: <<text>> or <<>>
LeadsWith(f, m) == IF f \in {"text"} THEN << <<m, 46>> >> ELSE <<>>
OutIds(p, l) == [j \in 1..Len(l) |-> p \o ToString(j)]
Spaces1(c) ==
  LET ti == IF c[1] = 0 THEN <<>> ELSE Lists[c[1]] co == Lists[c[2] + 1]
      tids == OutIds("u", ti) cids == OutIds("v", co)
  IN [BaseSp EXCEPT !["p1"].objs =
       ("P" :> Node("PageNode", <<PRs("ElementChildNodes", IF Len(cids) = 2 THEN <<cids[1], "I2", cids[2]>> ELSE cids)>> \o OneIf(c[1] > 0, PRs("StructureElementChildNodes", <<"T">>)))) @@
       ("T" :> Node("TitleNode", <<PRs("ElementChildNodes", tids)>>)) @@
       Union([j \in 1..Len(ti) |-> Lead(tids[j], Forms[ti[j]], 96 + j)]) @@ Union([j \in 1..Len(co) |-> Lead(cids[j], Forms[co[j]], 64 + j)]) @@ @]
VARIABLE n
Init == n = Shard
Next == n + Shards < Min2(Limit, Total) /\ n' = n + Shards
Emitted == n < Min2(Limit, Total) => LET i == Idx(n, Total) Sp == Spaces1(Parts(i)) IN EmitCase(SectionCase(<<"title", i>>, BaseDoc(Sp), <<NoLayout>>, Expect(Sp, Fname)))
\* the first text of the title block, otherwise the first non-empty leading text of the outlines
Sound == n < Min2(Limit, Total) =>
  LET c == Parts(Idx(n, Total)) e == Expect(Spaces1(c), Fname)
      ti == IF c[1] = 0 THEN <<>> ELSE Lists[c[1]] co == Lists[c[2] + 1]
      t == IF ti = <<>> THEN <<>> ELSE LeadsWith(Forms[ti[1]], 97)
      o == Concat([j \in 1..Len(co) |-> LeadsWith(Forms[co[j]], 64 + j)])
  IN e.ok /\ e.v.series[1][1].title_text = IF t # <<>> THEN t ELSE IF o = <<>> THEN <<>> ELSE <<o[1]>>
============================================================================
