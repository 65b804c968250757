------------------------------- MODULE Idents -------------------------------
(* P18: identifiers that differ in one bit belong to different things, and  *)
(* an identifier is the same in whichever width it is written: in a file    *)
(* with two things of each kind, the identifiers of any two of a kind may   *)
(* be any two that differ.                                                  *)
EXTENDS Base
Some(S) == [x \in S |-> BaseObjs[x]]
\* two pages; the first has two texts and two files, in two revisions of two groups
Text(t) == Obj("RichTextNode", SelectSeq(BaseObjs["TX"].p, LAMBDA p : p.n # "RichEditTextUnicode") \o <<PS("RichEditTextUnicode", <<t>>)>>)
PageObjs == Some({"M", "N", "S", "a", "F", "FC", "D2"}) @@ [
  P |-> [BaseObjs["P"] EXCEPT !.p = Without(Without(@, "StructureElementChildNodes"), "ElementChildNodes") \o <<PRs("ElementChildNodes", <<"O", "F", "F3">>)>>],
  E |-> [BaseObjs["E"] EXCEPT !.p = Without(Without(@, "ListNodes"), "ContentChildNodes") \o <<PRs("ContentChildNodes", <<"X1", "X2">>)>>],
  X1 |-> Text(49), X2 |-> Text(50), F3 |-> Node("EmbeddedFileNode", <<PR("EmbeddedFileContainer", "FD")>>), FD |-> ObjB("EmbeddedFileContainer", <<>>, <<"b2">>)]
  @@ ("O" :> [BaseObjs["O"] EXCEPT !.p = Without(@, "ElementChildNodes") \o <<PRs("ElementChildNodes", <<"E">>)>>])
SmallPage(t) == [roots |-> [content |-> "M", metadata |-> "N"], objs |-> Some({"N"}) @@ [M |-> Node("PageManifestNode", <<PRs("ContentChildNodes", <<"P">>)>>),
  P |-> Node("PageNode", <<PRs("ElementChildNodes", <<"X">>)>>), X |-> Node("OutlineNode", <<PRs("ElementChildNodes", <<>>)>>)]]
IdSp == ("R" :> [BaseRoot EXCEPT !.objs["SS"].p = Without(@, "ChildGraphSpaceElementNodes") \o <<PSp("ChildGraphSpaceElementNodes", <<"p1", "p2">>)>>]) @@
        ("p1" :> [roots |-> [content |-> "M", metadata |-> "N"], objs |-> PageObjs]) @@ ("p2" :> SmallPage(1))
InFirst == {"M", "N", "P", "O", "X1"}
InGroup1 == {"M", "P", "X1"}
Part0(S) == [x \in S |-> IdSp["p1"].objs[x]]
Revs == <<[roots |-> [content |-> "M", metadata |-> "M"], groups |-> <<Part0(InGroup1), Part0(InFirst \ InGroup1)>>],
          [roots |-> [metadata |-> "N"], groups |-> <<Part0({"E", "X2", "S"}), Part0(DOMAIN IdSp["p1"].objs \ (InFirst \cup {"E", "X2", "S"}))>>]>>
IdDoc(via) == [schema |-> "section", root |-> "R", blobs |-> [b2 |-> [b |-> <<2, 2>>], b3 |-> [b |-> <<3>>]],
  spaces |-> [x \in {"R", "p2"} |-> [via |-> via, revs |-> <<[roots |-> IdSp[x].roots, objs |-> IdSp[x].objs]>>]] @@
             [p1 |-> [via |-> via, ctx |-> "c1", revs |-> Revs], z1 |-> [ctx |-> "c2", revs |-> <<[roots |-> [content |-> "M"], objs |-> ("M" :> Obj("TitleNode", <<>>))]>>]]]
(* the kinds of things: two names; how spaces are found *)
Roles == << <<"X1", "X2", "">>, <<"FC", "FD", "">>, <<"M", "N", "">>, <<"blob:b2", "blob:b3", "">>, <<"og:p1:1:1", "og:p1:1:2", "">>, <<"og:p1:2:1", "og:p1:1:1", "">>, <<"rid:p1:1", "rid:p1:2", "">>,
  <<"rid:p1:2", "rid:R:1", "">>, <<"rm:p1:1", "rm:p1:2", "">>, <<"rm:p2:1", "rm:p1:2", "direct">>, <<"rm:p2:1", "rm:p1:2", "cmdirect">>, <<"rid:p2:1", "rid:p1:2", "map">>, <<"cm:p1", "cm:p2", "">>, <<"cm:R", "cm:@hdr", "">>,
  <<"p1", "p2", "">>, <<"p1", "R", "">>, <<"sm", "decoysm", "">>, <<"si", "decoysi", "">>, <<"c1", "c2", "">>, <<"hdrctx", "ctx", "">>, <<"serial", "", "serial">>, <<"serial", "tail", "serial">>, <<"compact", "", "">>, <<"role", "", "">>>>
Bits == 160
\* numbers at the limits of the widths
Numbers == << <<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<31, 0, 0, 0>>, <<32, 0, 0, 0>>, <<255, 3, 0, 0>>, <<0, 4, 0, 0>>, <<255, 255, 0, 0>>, <<255, 255, 1, 0>>, <<0, 0, 2, 0>>, <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>>, <<16, 0, 1, 0>> >>
Flip(bs, k) == [bs EXCEPT ![(k \div 8) + 1] = IF (@ \div 2^(k % 8)) % 2 = 1 THEN @ - 2^(k % 8) ELSE @ + 2^(k % 8)]
Gd(i) == RBytes(Seed(VSeed, i % 97), 16)
Widths == << <<0>>, <<1, 0>>, <<2, 3, 1, 0>>, <<3>>, <<3, 0, 2, 1>> >>
Spec(id, w) == [g |-> SubSeq(id, 1, 16), n |-> SubSeq(id, 17, 20), w |-> w]
Pair(x, y, id, id2, w) == (x :> Spec(id, w)) @@ (y :> Spec(id2, w))
Total == Len(Roles) * Bits * (IF Deep = 1 THEN 8 ELSE 1)
RoleOf(i) == Roles[1 + (i % Len(Roles))]
BitOf(i) == (i \div Len(Roles)) % Bits
\* how the guid of a role and its bits are written
RoleGuid == <<248, 23, 55, 74, 20, 28, 231, 73, 149, 38, 129, 217, 66, 222, 23, 65>>
Encs(i) == [j \in 1..3 |-> [pack |-> <<"", "new", "revlegacy">>[j], enc |-> [seed |-> (i % 500) + j, w |-> <<"", "rand", "max">>[j], cuw |-> (i + j) % 8, shuffle |-> j # 1, extra |-> j]]]
Compacts(c, d) == <<257, 514, c, d>>
\* positions: the references of an element are its authors and contents
CompactDoc(k) ==
  LET c == 1 + 256 * 3 + 65536 * 5 d == IF (c \div 2^k) % 2 = 1 THEN c - 2^k ELSE c + 2^k doc == IdDoc("")
      e == Obj("OutlineElementNode", <<PR("AuthorOriginal", "a"), PR("AuthorMostRecent", "a"), PRs("ContentChildNodes", <<"X1", "">>)>> \o
             SelectSeq(PageObjs["E"].p, LAMBDA p : p.t \notin {8, 9})) @@ [cp |-> Compacts(c, d)]
  IN [doc EXCEPT !.spaces["p1"].revs[2].groups[1] = ("E" :> e) @@ @]
CompactSp(k) == [IdSp EXCEPT !["p1"].objs["E"].p = <<PR("AuthorOriginal", "a"), PR("AuthorMostRecent", "a"), PRs("ContentChildNodes", <<"X1">>)>> \o SelectSeq(@, LAMBDA p : p.t \notin {8, 9})]
ASSUME TLCSet(7, TLCEval(Expect(IdSp, Fname))) /\ TLCSet(8, TLCEval(Expect(CompactSp(0), Fname)))
Same0 == TLCGet(7)
CaseOf(i) ==
  LET r == RoleOf(i) b == BitOf(i) x == r[1] y == r[2] id == Gd(i) \o Pick(Seed(VSeed, i), 1, Numbers) id2 == Flip(id, b)
      w == Pick(Seed(VSeed, i), 2, Widths) id0 == <<"ident", r, b>> doc == IdDoc(r[3]) IN
  CASE x = "serial" -> LET s == Gd(i) \o RBytes(Seed(5, i), 8) IN SectionCase(id0, [doc EXCEPT !.root = @] @@ [sers |-> ("sn:p1" :> s) @@ ("sn:p2" :> Flip(s, IF y = "tail" THEN b + 32 ELSE b))], Encs(i), Same0)
    [] x = "compact" -> SectionCase(id0, CompactDoc(b % 30), Encs(i), TLCGet(8))
    [] x = "role" -> SectionCase(id0, [doc EXCEPT !.spaces["p1"].revs[1].roots = @ @@ [zz |-> "M"]] @@ [ids |-> ("zz" :> Spec(Flip(RoleGuid \o <<1, 0, 0, 0>>, b), w))], Encs(i),
         IF b \in {128, 129} THEN [any |-> TRUE] ELSE IF b = 130 THEN [ok |-> FALSE] ELSE [ok |-> FALSE])
    [] x \in {"sm", "si"} -> SectionCase(id0, doc @@ [decoy |-> <<x>>, ids |-> Pair(x, y, id, id2, w)], Encs(i), Same0)
    \* the same space in another context is another cell
    [] x = "c1" -> SectionCase(id0, doc @@ [ids |-> Pair(x, y, id, id2, w) @@ ("z1" :> Spec(Gd(i + 1) \o Numbers[1], w)) @@ ("p1" :> Spec(Gd(i + 1) \o Numbers[1], w))], Encs(i), Same0)
    [] OTHER -> SectionCase(id0, doc @@ [ids |-> Pair(x, y, id, id2, w)], Encs(i), Same0)
VARIABLE n
Bound == Min2(Limit, Total)
Init == n = Shard
Next == n + Shards < Bound /\ n' = n + Shards
Emitted == n < Bound => EmitCase(CaseOf(n))
Sound == n = Shard => Same0.ok /\ TLCGet(8).ok
=============================================================================
