-------------------------------- MODULE Refs --------------------------------
(* P05: a writer stores the properties of one object in some order, with    *)
(* properties of every type that consumes references (or none) between      *)
(* them.  Every order is reached; each reference property shows exactly its *)
(* own targets.                                                             *)
EXTENDS Base
CONSTANTS MaxNoise, Every
Hosts == [E |-> {"ElementChildNodes", "ContentChildNodes", "ListNodes", "Au"},
          X |-> {"NoteTags", "TextRunFormatting", "ParagraphStyle"},
          I |-> {"PictureContainer", "ContentChildNodes", "NoteTags"},
          SS |-> {"ChildGraphSpaceElementNodes", "MetaDataObjectsAboveGraphSpace"}]
NoiseKinds == {"one", "list", "space", "spaces", "ctx", "ctxs", "sets", "set", "bytes", "empty", "bool"}
\* "last" marks a list whose tail has no targets; it closes the object
VARIABLES host, variant, props, noise, h
Vars == <<host, variant, props, noise, h>>
No(x) == CASE x = "ElementChildNodes" -> 1 [] x = "ContentChildNodes" -> 2 [] x = "ListNodes" -> 3 [] x = "Au" -> 4 [] x = "NoteTags" -> 5 [] x = "TextRunFormatting" -> 6
  [] x = "ParagraphStyle" -> 7 [] x = "PictureContainer" -> 8 [] x = "ChildGraphSpaceElementNodes" -> 9 [] x = "MetaDataObjectsAboveGraphSpace" -> 10 [] x = "one" -> 11
  [] x = "list" -> 12 [] x = "space" -> 13 [] x = "spaces" -> 14 [] x = "ctx" -> 15 [] x = "ctxs" -> 16 [] x = "sets" -> 17 [] x = "set" -> 18 [] x = "bytes" -> 19 [] x = "empty" -> 20 [] x = "bool" -> 21
  [] x = "E" -> 22 [] x = "X" -> 23 [] x = "I" -> 24 [] OTHER -> 25
\* variants: 0 distinct targets, 1 shared and repeated targets, 2 empty lists, 3 the last list has a tail without targets
Init == /\ host \in DOMAIN Hosts /\ variant \in 0..3 /\ props = <<>> /\ noise = 0 /\ h = variant + 7 * No(host) + 1000 * (VSeed % 60)
PutKnown(x) == x \in Hosts[host] \ ToSet(props) /\ props' = Append(props, x) /\ noise' = noise
PutNoise(x) == noise < MaxNoise /\ props' = Append(props, x) /\ noise' = noise + 1
Next == \E x \in Hosts[host] \cup NoiseKinds : /\ IF x \in Hosts[host] THEN PutKnown(x) ELSE x \notin ToSet(props) /\ PutNoise(x)
                                               /\ h' = (h * 59 + No(x) * 7 + 1) % 65521 /\ UNCHANGED <<host, variant>>
Complete == Hosts[host] \subseteq ToSet(props)

Zs(i) == SubSeq(<<"zz1", "zz2", "El1", "Co1", "zz1">>, i, i + 1)
NoiseProp(x, s) ==
  CASE x = "one" -> [n |-> "0x00003A01", t |-> 8, r |-> <<"zz1">>]
    [] x = "list" -> [n |-> "0x00003A02", t |-> 9, r |-> IF s % 2 = 0 THEN <<"zz1", "zz2", "zz1">> ELSE <<"El1", "d1">>]
    [] x = "space" -> [n |-> "0x00003A03", t |-> 10, r |-> <<"p1">>]
    [] x = "spaces" -> [n |-> "0x00003A04", t |-> 11, r |-> <<"p2", "zs1">>]
    [] x = "ctx" -> [n |-> "0x00003A05", t |-> 12, r |-> <<"zc1">>]
    [] x = "ctxs" -> [n |-> "0x00003A06", t |-> 13, r |-> <<"zc1", "zc2">>]
    [] x = "sets" -> [n |-> "0x00003A07", t |-> 16, s |-> << <<[n |-> "0x00003A08", t |-> 8, r |-> <<"zz1">>]>>, <<>>,
           <<[n |-> "0x00003A0B", t |-> 17, s |-> << <<[n |-> "0x00003A0C", t |-> 9, r |-> <<"zz2", "El1">>], [n |-> "0x00003A0D", t |-> 11, r |-> <<"p2">>]>> >>], [n |-> "0x00003A09", t |-> 9, r |-> <<"zz1", "zz3">>]>> >>]
    [] x = "set" -> [n |-> "0x00003A0A", t |-> 17, s |-> << <<[n |-> "0x00003A08", t |-> 9, r |-> <<"zz2">>], [n |-> "0x00003A0E", t |-> 10, r |-> <<"p2">>], [n |-> "0x00003A0F", t |-> 12, r |-> <<"zc1">>],
           [n |-> "0x00003A10", t |-> 16, s |-> << <<[n |-> "0x00003A08", t |-> 8, r |-> <<"zz2">>]>> >>]>> >>]
    [] x = "bytes" -> PV("0x00003A11", <<1, 2, 3, 4, 5>>)
    [] x = "empty" -> [n |-> "0x00003A12", t |-> 9, r |-> <<>>]
    [] OTHER -> PB("0x00003A13", s % 2 = 0)
Consumes(x) == x \notin {"bytes", "empty", "bool", "ctx", "ctxs"}
SpaceRefs(x) == x \in {"space", "spaces", "ChildGraphSpaceElementNodes"}
\* targets of the known properties
Base3(p) == <<p \o "1", p \o "2", p \o "3">>
Targets(v, x) ==
  LET ts == CASE x = "ElementChildNodes" -> Base3("El") [] x = "ContentChildNodes" -> (IF v = 0 /\ TRUE THEN <<"Co1", "Co2">> ELSE <<"Co2", "Co1", "Co2">>)
              [] x = "ListNodes" -> <<"Li1", "Li2">> [] x = "TextRunFormatting" -> (IF v = 1 THEN <<"St1", "St2", "St1">> ELSE <<"St1", "St2">>)
              [] x = "ParagraphStyle" -> <<IF v = 1 THEN "St1" ELSE "S">> [] x = "PictureContainer" -> <<"IC">>
              [] x = "ChildGraphSpaceElementNodes" -> (IF v = 1 THEN <<"p2", "p1", "p2">> ELSE <<"p1", "p2">>) [] OTHER -> <<"SM", "SM">>
  IN IF v = 2 /\ x \notin {"ParagraphStyle", "PictureContainer"} THEN <<>> ELSE IF v = 1 /\ x = "ElementChildNodes" THEN ts \o <<"El2">> ELSE ts
FrameTargets(v) == IF v = 2 THEN <<>> ELSE <<"Fr1", "Fr2">>
TagDefsOf(v) == CASE v = 0 -> <<"d1", "d2">> [] v = 1 -> <<"d2", "d2", "", "d1">> [] v = 2 -> <<"", "">> [] OTHER -> <<"d1", "">>
LastList == LET c == SelectSeq([i \in 1..Len(props) |-> i], LAMBDA i : Consumes(props[i]) /\ ~SpaceRefs(props[i])) IN IF c = <<>> THEN 0 ELSE c[Len(c)]
IsList(x) == x \in {"ElementChildNodes", "ContentChildNodes", "ListNodes", "TextRunFormatting", "MetaDataObjectsAboveGraphSpace"}
KnownProp(x, last) ==
  LET tail == IF variant = 3 /\ last /\ IsList(x) THEN <<"", "">> ELSE <<>> IN
  CASE x = "NoteTags" -> PSets("NoteTags", [i \in 1..Len(TagDefsOf(variant)) |-> LET d == TagDefsOf(variant)[i] s == Seed(h, i) IN
            Shuffle(s, Attrs("NoteTag", s, 0, 1) \o OneIf(d # "", PR("NoteTagDefinitionOid", d)) \o OneIf(i % 2 = 0, [n |-> "0x00003B02", t |-> 9, r |-> <<"zz1", "zz2">>]))])
    [] x = "ParagraphStyle" -> PR(x, Targets(variant, x)[1])
    [] x = "PictureContainer" -> PR(x, "IC")
    [] x = "ChildGraphSpaceElementNodes" -> PSp(x, Targets(variant, x))
    [] x = "ContentChildNodes" /\ host = "I" -> PRs(x, FrameTargets(variant) \o tail)
    [] OTHER -> PRs(x, Targets(variant, x) \o tail)
PropsFor(x, last) == IF x = "Au" THEN ElementRefs("") ELSE IF x \in Hosts[host] THEN <<KnownProp(x, last)>> ELSE <<NoiseProp(x, h)>>
HostProps == Concat([i \in 1..Len(props) |-> PropsFor(props[i], i = LastList)])
Ref4 == {"ElementChildNodes", "ContentChildNodes", "ListNodes", "AuthorOriginal", "AuthorMostRecent", "NoteTags", "TextRunFormatting", "ParagraphStyle", "PictureContainer",
         "ChildGraphSpaceElementNodes", "MetaDataObjectsAboveGraphSpace", "TextRunIndex", "TextRunData"}
HostKind == [E |-> "OutlineElementNode", X |-> "RichTextNode", I |-> "ImageNode", SS |-> "PageSeriesNode"]
HostObj == [k |-> HostKind[host], b |-> <<>>, p |-> HostProps \o Attrs(HostKind[host], S0, 0, 1)]
Item(i) == "El" \o ToString(i)
Marks == [x \in {Item(i) : i \in 1..3} |-> LET i == CHOOSE i \in 1..3 : Item(i) = x IN
            LET o == Node("OutlineElementNode", ElementRefs("")) IN [o EXCEPT !.p = Without(@, "OutlineElementChildLevel") \o <<PI("OutlineElementChildLevel", <<i>>)>>]] @@
  ("Co1" :> Node("RichTextNode", <<PR("ParagraphStyle", "S"), PS("RichEditTextUnicode", <<1>>)>>)) @@ ("Co2" :> Node("ImageNode", <<PS("ImageAltText", <<2>>)>>)) @@
  ("Li1" :> Node("NumberListNode", <<PI("ListRestart", LE4(1))>>)) @@ ("Li2" :> Node("NumberListNode", <<PI("ListRestart", LE4(2))>>)) @@
  ("St1" :> Node("ParagraphStyleObject", <<PI("LanguageId", LE4(1))>>)) @@ ("St2" :> Node("ParagraphStyleObject", <<PI("LanguageId", LE4(2))>>)) @@
  ("Fr1" :> Node("IFrameNode", <<PI("ImageEmbedType", LE4(1))>>)) @@ ("Fr2" :> Node("IFrameNode", <<PI("ImageEmbedType", LE4(2))>>)) @@
  ("d1" :> Node("NoteTagSharedDefinitionContainer", <<PI("NoteTagTextColor", <<1, 0, 0, 0>>)>>)) @@ ("d2" :> Node("NoteTagSharedDefinitionContainer", <<PI("NoteTagTextColor", <<2, 0, 0, 0>>)>>))
Page2 == [BasePage EXCEPT !.objs = [x \in {"M", "N", "P"} |-> IF x = "P" THEN Node("PageNode", <<>>) ELSE IF x = "N" THEN Node("PageMetadata", <<PI("PageLevel", LE4(2))>>) ELSE BaseObjs[x]]]
SpNow == IF host = "SS" THEN ("p2" :> Page2) @@ [BaseSp EXCEPT !["R"].objs["SS"] = HostObj]
         ELSE ("p2" :> Page2) @@ [BaseSp EXCEPT !["p1"].objs = (host :> HostObj) @@ Marks @@ @]
Mine == Complete /\ (h \div 3) % Shards = Shard
RECURSIVE NumOf(_)
NumOf(x) == CASE x \in {"El1", "Co1", "Li1", "St1", "Fr1", "d1"} -> 1 [] x \in {"El2", "Co2", "Li2", "St2", "Fr2", "d2"} -> 2 [] OTHER -> 3
Nums(xs) == Map(NumOf, xs)
Sound == Mine =>
  LET e == Expect(SpNow, Fname) IN
  /\ e.ok
  /\ CASE host = "SS" -> Map(LAMBDA p : p.level, e.v.series[1]) = Map(LAMBDA x : IF x = "p2" THEN LE4(2) ELSE Zero4, Targets(variant, "ChildGraphSpaceElementNodes"))
       [] host = "E" -> LET v == e.v.series[1][1].contents[1].items[2] IN
            /\ Map(LAMBDA x : x.child_level[1], v.children) = Nums(Targets(variant, "ElementChildNodes"))
            /\ Map(LAMBDA x : IF x.k = "text" THEN 1 ELSE 2, v.contents) = Nums(Targets(variant, "ContentChildNodes"))
            /\ Map(LAMBDA x : x.restart[1][1], v.lists) = Nums(Targets(variant, "ListNodes"))
       [] host = "X" -> LET v == e.v.series[1][1].contents[1].items[2].contents[1] IN
            /\ Map(LAMBDA x : x.language[1][1], v.runs) = Nums(Targets(variant, "TextRunFormatting"))
            /\ v.style.language = (IF variant = 1 THEN <<LE4(1)>> ELSE <<>>)
            /\ Map(LAMBDA t : t.definition, v.tags) = Map(LAMBDA d : IF d = "" THEN <<>> ELSE
                   <<TagView([objs |-> [x \in {d} |-> [p |-> Keyed(Marks[d].p), k |-> ""]]], Keyed(Attrs("NoteTag", S0, 0, 1) \o <<PR("NoteTagDefinitionOid", d)>>)).definition[1]>>, TagDefsOf(variant))
       [] OTHER -> LET v == SelectSeq(e.v.series[1][1].contents[1].items[2].contents, LAMBDA c : c.k = "image")[1] IN
            /\ v.data = << ("$blob" :> "b1") >>
            /\ Map(LAMBDA x : x.type[1][1], v.embeds) = Nums(FrameTargets(variant))
            /\ Map(LAMBDA t : IF t.definition = <<>> THEN "" ELSE t.definition[1].text_color, v.tags) = Map(LAMBDA d : IF d = "" THEN "" ELSE <<IF d = "d1" THEN <<1, 0, 0>> ELSE <<2, 0, 0>>>>, TagDefsOf(variant))
Emitted == Mine /\ h % Every = 0 => EmitCase(SectionCase(<<"refs", host, variant, props>>, BaseDoc(SpNow), <<Layout(Seed(h, 2)), [enc |-> [cid |-> Pick(Seed(h, 3), 1, <<"seq", "same", "allsame">>)]]>>, Expect(SpNow, Fname)))
============================================================================
