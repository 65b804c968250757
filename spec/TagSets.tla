------------------------------ MODULE TagSets ------------------------------
(* P09: a writer puts tags on an object; every sequence of at most MaxTags  *)
(* tags with any of three definitions or none, on each kind of host.        *)
EXTENDS Base
CONSTANTS MaxTags, Every
VARIABLES host, tags, h
HostKind == [X |-> "RichTextNode", B |-> "TableNode", I |-> "ImageNode", F |-> "EmbeddedFileNode"]
Init == tags = <<>> /\ host \in DOMAIN HostKind /\ h = (CASE host = "X" -> 1 [] host = "B" -> 2 [] host = "I" -> 3 [] OTHER -> 4) + 10 * (VSeed % 5000)
Put1(d, done) == tags' = Append(tags, <<d, done>>) /\ h' = (h * 41 + d * 7 + (IF done THEN 300 ELSE 0) + 11) % 65521
Next == Len(tags) < MaxTags /\ UNCHANGED host /\ \E d \in 0..3, done \in BOOLEAN : Put1(d, done)
DefName(d) == "def" \o ToString(d)
DefObj(d) == Obj("NoteTagSharedDefinitionContainer", Without(Attrs("NoteTagSharedDefinitionContainer", Seed(d, 5), 1, 2), "NoteTagLabel") \o <<PS("NoteTagLabel", <<64 + d>>)>>)
TagOf(t, i, s) == Shuffle(s, Without(Without(Attrs("NoteTag", s, 0, 1), "ActionItemStatus"), "NoteTagCompleted") \o <<PI("ActionItemStatus", <<i, 0>>)>> \o
   OneIf(t[2], PI("NoteTagCompleted", LE4(100 * i))) \o OneIf(t[1] > 0, PR("NoteTagDefinitionOid", DefName(t[1]))) \o
   OneIf(Coin(s, 3, 1, 3), [n |-> "0x00003C01", t |-> Pick(s, 4, <<8, 9, 11>>), r |-> <<"zz1">>]))
SpFor(ho, ts, hh) ==
  LET s == Seed(hh, 3) old == Without(BaseObjs[ho].p, "NoteTags")
      ps == Shuffle(s, old \o OneIf(ts # <<>>, PSets("NoteTags", [i \in 1..Len(ts) |-> TagOf(ts[i], i, Sub(s, i))])) \o
                       OneIf(Coin(s, 9, 1, 2), [n |-> "0x00003C02", t |-> 17, s |-> << <<[n |-> "0x00003C03", t |-> 9, r |-> <<"zz1", "zz2">>]>> >>]) \o
                       OneIf(Coin(s, 10, 1, 2), [n |-> "0x00003C04", t |-> 9, r |-> <<"D", "D2">>]))
  IN [BaseSp EXCEPT !["p1"].objs = (ho :> [BaseObjs[ho] EXCEPT !.p = ps]) @@ [x \in {DefName(d) : d \in 1..3} |-> DefObj(CHOOSE d \in 1..3 : DefName(d) = x)] @@ @]
\* the contents of the element that holds the host
HostView(e) == LET cs == e.v.series[1][1].contents[1].items[2].contents
                   want == CASE host = "X" -> "text" [] host = "B" -> "table" [] host = "I" -> "image" [] OTHER -> "file"
               IN SelectSeq(cs, LAMBDA c : c.k = want)[1]
Mine == (h \div 7) % Shards = Shard
Sound == Mine =>
  LET e == Expect(SpFor(host, tags, h), Fname) IN e.ok /\
  LET v == HostView(e).tags IN
     /\ Len(v) = Len(tags)
     /\ \A i \in 1..Len(tags) : /\ v[i].completed_at = (IF tags[i][2] THEN <<LE4(100 * i)>> ELSE <<>>)
                                /\ (IF tags[i][1] = 0 THEN v[i].definition = <<>> ELSE v[i].definition[1].label = <<64 + tags[i][1]>>)
Emitted == Mine /\ h % Every = 0 =>
  LET Sp == SpFor(host, tags, h) IN EmitCase(SectionCase(<<"tags", host, tags, h>>, BaseDoc(Sp), <<NoLayout>>, Expect(Sp, Fname)))
============================================================================
