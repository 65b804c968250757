----------------------------- MODULE Sessions -----------------------------
(* P15: parsing is a function of its input.  A session is a sequence of     *)
(* steps: the files of a notebook change, or some threads each parse        *)
(* something.  A parse reads its input, which is all that its result        *)
(* depends on, and finishes; parses of a step interleave in every way.      *)
EXTENDS Toc
CONSTANTS Part, LibFile     \* Part: "pairs", "random"
(* what can be parsed: sections that share their identifiers; files that are refused *)
A1 == <<65>> \o <<46, 111, 110, 101>>
B1 == <<66>> \o <<46, 111, 110, 101>>
NbA == <<110, 98, 47>> \o A1   NbG == <<110, 98, 47, 103, 47>> \o A1
NbT == <<110, 98, 47, 120>> \o TocExt   NbGT == <<110, 98, 47, 103, 47, 121>> \o TocExt
NbNone == <<110, 98, 47, 90>> \o A1
Text(Sp, o, u) == [Sp EXCEPT !["p1"].objs[o].p = Without(@, "RichEditTextUnicode") \o <<PS("RichEditTextUnicode", u)>>]
V1 == Text(Text(BaseSp, "TX", <<84>>), "X", <<65, 66, 67>>)
\* of the same length, with other contents, other styles and other colours
V3 == SetProps(Text(Text(BaseSp, "TX", <<85>>), "X", <<65, 66, 68>>), "p1", "S1", Without(BaseObjs["S1"].p, "Bold") \o <<PB("Bold", FALSE)>>)
V2 == TLCEval(GenSection(Seed(VSeed, 5), 3))
\* the same objects with the same references, but with other values in all of them
Fixed == {"TextRunIsEmbeddedObject", "MathFormatting", "EmbeddedObjectType", "TextRunIndex", "TextExtendedAscii", "RichEditTextUnicode", "InkBoundingBox", "TableColumnWidths"}
Values(k, ps, s) == LET fs == SelectSeq(Flds[k], LAMBDA f : ~IsRefType(f[2]) /\ f[1] \notin Fixed) ns == {fs[j][1] : j \in 1..Len(fs)} IN
  SelectSeq(ps, LAMBDA p : p.n \notin ns) \o [j \in 1..Len(fs) |-> Val(fs[j][1], fs[j][2], Sub(s, j))]
Tagged(p, s) == IF p.n = "NoteTags" THEN [p EXCEPT !.s = [j \in 1..Len(@) |-> Values("NoteTag", @[j], Sub(s, j))]] ELSE p
Twin(o, s) == IF o.k \notin DOMAIN Flds THEN o ELSE LET ps == Values(o.k, o.p, s) IN [o EXCEPT !.p = [j \in 1..Len(ps) |-> Tagged(ps[j], Sub(s, 100 + j))]]
Twins(s) == [x \in DOMAIN BaseSp |-> [BaseSp[x] EXCEPT !.objs = LET q == SetToSeq(DOMAIN @) old == @ IN [o \in DOMAIN old |-> Twin(old[o], Sub(s, CHOOSE j \in 1..Len(q) : q[j] = o))]]]
V4 == TLCEval(Text(Twins(Seed(VSeed, 14)), "X", <<90, 66, 67>>))
V5 == TLCEval(Twins(Seed(VSeed, 15)))
RECURSIVE Chain(_)
\* groups below each other: the last holds an element, or the first again
Chain(k) == IF k = 0 THEN None ELSE (("G" \o ToString(k)) :> Node("OutlineGroup", <<PRs("ElementChildNodes", <<"G" \o ToString(k - 1)>>)>>)) @@ Chain(k - 1)
Nest(last) == [BaseSp EXCEPT !["p1"].objs = ("O" :> Node("OutlineNode", <<PRs("ElementChildNodes", <<"G20">>)>>)) @@ ("G0" :> Node("OutlineGroup", <<PRs("ElementChildNodes", <<last>>)>>)) @@ Chain(20) @@ @]
SpOf == [v1 |-> V1, v2 |-> V2, v3 |-> V3, v4 |-> V4, v5 |-> V5, deep |-> Nest("E2"), cyc |-> Nest("G20"), lost |-> [BaseSp EXCEPT !["p1"].objs = [x \in DOMAIN @ \ {"S3"} |-> @[x]]]]
Sections == {"v1", "v2", "v3", "v4", "v5", "deep", "cyc", "lost"}
ASSUME Sections = DOMAIN SpOf
Blob(x) == IF x = "v2" THEN BlobMap(Seed(VSeed, 6), SetToSeq(BlobNames(V2)), 1) ELSE IF x = "v5" THEN [b1 |-> [b |-> <<4, 5, 6>>], b2 |-> [n |-> 30, s |-> 6], b3 |-> [n |-> 40, s |-> 7]] ELSE BaseDoc(BaseSp).blobs
DocOf(x) == [BaseDoc(SpOf[x]) EXCEPT !.blobs = Blob(x)]
\* tables of contents
Red == << <<1, 2, 3, 4>> >>
T1 == << <<(<<0, 1>>), A1>>, <<(<<0, 2>>), <<103>> >> >>
T2 == << <<(<<0, 2>>), A1>>, <<(<<0, 1>>), <<103>> >> >>
T3 == << <<(<<0, 1>>), A1>> >>
TocOf == [t1 |-> TocDoc(T1, 0, <<>>), t2 |-> TocDoc(T2, 0, Red), t3 |-> TocDoc(T3, 0, <<>>)]
Contents == [x \in Sections |-> [doc |-> DocOf(x)]] @@ [x \in DOMAIN TocOf |-> [doc |-> TocOf[x]]] @@ [bad |-> [bytes |-> <<1, 2, 3>>], none |-> [bytes |-> <<>>]]
Key(x, nm) == x \o (IF nm = A1 THEN "@A" ELSE "@B")
SecResult == TLCEval([x \in Sections, nm \in {A1, B1} |-> IF x = "cyc" THEN [ok |-> FALSE] ELSE Expect(SpOf[x], nm)])
ASSUME TLCSet(11, SecResult)
Refused == {"cyc", "lost"}
ASSUME \A x \in Sections : TLCGet(11)[x, A1].ok = (x \notin Refused)
Lib == [contents |-> Contents, expects |-> [k \in {Key(x, nm) : x \in {x \in Sections : TLCGet(11)[x, A1].ok}, nm \in {A1, B1}} |->
   LET q == CHOOSE q \in Sections \X {A1, B1} : Key(q[1], q[2]) = k IN TLCGet(11)[q[1], q[2]].v]]
ASSUME Shard # 0 \/ JsonSerialize(LibFile, Lib)
(* results, as names *)
Tocs == {"t1", "t2", "t3"}
SecErr(x) == IF x \in Tocs THEN [ok |-> FALSE, err |-> "NotASectionFile"] ELSE [ok |-> FALSE]
SecOf(x, nm) == IF x \in Sections \ Refused THEN [ok |-> TRUE, v |-> ("$of" :> Key(x, nm))] ELSE SecErr(x)
RECURSIVE NbOf(_, _, _, _)
\* the notebook with table of contents t next to the section a and, if inner, the group with the section b
EntryOf(a) == LET r == SecOf(a, A1) IN IF a = "none" THEN [ok |-> TRUE, v |-> <<>>] ELSE IF r.ok THEN [ok |-> TRUE, v |-> << [k |-> "section", section |-> r.v] >>] ELSE Fail
NbOf(t, a, b, inner) ==
  IF t \notin Tocs THEN IF t \in Sections THEN [ok |-> FALSE, err |-> "NotATocFile"] ELSE Fail
  ELSE LET ea == EntryOf(a) eb == EntryOf(b) grp == << [k |-> "group", name |-> <<103>>, entries |-> eb.v] >>
           sees == inner /\ t # "t3" IN
       IF ~ea.ok \/ (sees /\ ~eb.ok) THEN Fail
       ELSE [ok |-> TRUE, v |-> [color |-> IF t = "t2" THEN << <<251, 1, 2, 3>> >> ELSE <<>>,
                                 entries |-> IF ~sees THEN ea.v ELSE IF t = "t2" THEN grp \o ea.v ELSE ea.v \o grp]]
(* calls: how, and what *)
Calls == <<
  <<"buffer", "v1", A1>>, <<"buffer", "v2", A1>>, <<"buffer", "v3", A1>>, <<"buffer", "deep", A1>>, <<"buffer", "cyc", A1>>, <<"buffer", "bad", A1>>, <<"buffer", "lost", A1>>, <<"buffer", "t1", A1>>,
  <<"buffer", "v1", B1>>, <<"buffer", "v3", B1>>, <<"buffer", "v4", A1>>, <<"buffer", "v5", A1>>, <<"file", NbA>>, <<"file", NbG>>, <<"file", NbT>>, <<"file", NbNone>>, <<"notebook", NbT>>, <<"notebook", NbGT>>, <<"notebook", NbA>>>>
NC == Len(Calls)
\* how often a thread makes the call
Reps(c) == IF c[1] # "buffer" THEN 3 ELSE IF c[2] \in {"cyc", "bad", "lost"} THEN 30 ELSE 3
\* disk: the files a (nb/A.one), b (nb/g/A.one), t (nb/x.onetoc2)
Input(c, disk) == IF c[1] = "buffer" THEN <<c[2], c[3]>> ELSE IF c[1] = "file" THEN <<CASE c[2] = NbA -> disk.a [] c[2] = NbG -> disk.b [] c[2] = NbT -> disk.t [] OTHER -> "none">>
                  ELSE <<CASE c[2] = NbT -> disk.t [] c[2] = NbGT -> "t3" [] OTHER -> disk.a, IF c[2] = NbGT THEN disk.b ELSE disk.a, disk.b, c[2] = NbT>>
Result(c, input) == CASE c[1] = "buffer" -> SecOf(input[1], input[2]) [] c[1] = "file" -> SecOf(input[1], A1)
                      [] OTHER -> IF input[1] = "none" THEN Fail ELSE NbOf(input[1], input[2], input[3], input[4])
Writes == << <<"a", "v1">>, <<"a", "v2">>, <<"a", "v3">>, <<"a", "none">>, <<"a", "cyc">>, <<"b", "v1">>, <<"b", "v3">>, <<"b", "deep">>, <<"t", "t1">>, <<"t", "t2">>, <<"t", "t3">>, <<"a", "t1">>, <<"b", "bad">>, <<"a", "v4">>, <<"b", "v5">>>>
NW == Len(Writes)
W(k, keep) == [w |-> Writes[k], keep |-> keep]
Cs(ks) == [calls |-> [j \in 1..Len(ks) |-> Calls[ks[j]]]]
Disk0 == [a |-> "v1", b |-> "v1", t |-> "t1"]
(* the sessions *)
Total == IF Part = "pairs" THEN NC * NC * (NW + 2) ELSE Limit
Steps(s) ==
  IF Part = "pairs"
  THEN LET x == 1 + (s % NC) y == 1 + ((s \div NC) % NC) z == s \div (NC * NC) IN
       IF z = 0 THEN <<Cs(<<x>>), Cs(<<y>>)>> ELSE IF z = 1 THEN <<Cs(<<x, y>>), Cs(<<x>>)>> ELSE <<Cs(<<x>>), W(z - 1, s % 2 = 0), Cs(<<y>>)>>
  ELSE LET sd == Seed(VSeed + 3, s) m == 3 + Below(Sub(sd, 1), 5) IN
       [j \in 1..m |-> LET q == Sub(sd, 10 + j) IN IF Coin(q, 1, 1, 3) THEN W(1 + Below(Sub(q, 2), NW), Coin(q, 3, 1, 2)) ELSE Cs([h \in 1..Pick(q, 4, <<1, 1, 2, 3, 4>>) |-> 1 + Below(Sub(q, 5 + h), NC)])]

VARIABLES i, Plan, k, disk, threads, results
vars == <<i, Plan, k, disk, threads, results>>
Bound == Min2(Limit, Total)
Init == i \in {j \in 0..(Bound - 1) : j % Shards = Shard} /\ Plan = <<>> /\ k = 0 /\ disk = Disk0 /\ threads = <<>> /\ results = {}
Now == Plan[k]
Plans == k = 0 /\ Plan' = Steps(Idx(i, Total)) /\ k' = 1 /\ UNCHANGED <<i, disk, threads, results>>
Busy == k = 0 \/ k <= Len(Plan)
Write == /\ Busy /\ k > 0 /\ "w" \in DOMAIN Now
         /\ disk' = [disk EXCEPT ![Now.w[1]] = Now.w[2]] /\ k' = k + 1 /\ UNCHANGED <<i, Plan, threads, results>>
Begin == Busy /\ k > 0 /\ "calls" \in DOMAIN Now /\ threads = <<>> /\ threads' = [t \in 1..Len(Now.calls) |-> [at |-> "start"]] /\ UNCHANGED <<i, Plan, k, disk, results>>
Read(t) == threads[t].at = "start" /\ threads' = [threads EXCEPT ![t] = [at |-> "read", input |-> Input(Now.calls[t], disk)]] /\ UNCHANGED <<i, Plan, k, disk, results>>
Finish(t) == /\ threads[t].at = "read"
             /\ results' = results \cup {[step |-> k, thread |-> t, input |-> <<Now.calls[t][1], threads[t].input>>, result |-> Result(Now.calls[t], threads[t].input)]}
             /\ threads' = [threads EXCEPT ![t] = [at |-> "done"]] /\ UNCHANGED <<i, Plan, k, disk>>
End == threads # <<>> /\ (\A t \in DOMAIN threads : threads[t].at = "done") /\ threads' = <<>> /\ k' = k + 1 /\ UNCHANGED <<i, Plan, disk, results>>
Next == Plans \/ Write \/ Begin \/ End \/ \E t \in DOMAIN threads : Read(t) \/ Finish(t)
(* the same input, the same result; only writing changes files; whatever the order, the results of a step are the same *)
RECURSIVE DiskAt(_, _)
DiskAt(p, j) == IF j = 0 THEN Disk0 ELSE LET d == DiskAt(p, j - 1) IN IF "w" \in DOMAIN p[j] THEN [d EXCEPT ![p[j].w[1]] = p[j].w[2]] ELSE d
Pure == \A r, q \in results : r.input = q.input => r.result = q.result
Unchanged == k > 0 => disk = DiskAt(Plan, k - 1)
Sound == threads = <<>> => Pure /\ Unchanged /\ (~Busy => \A r \in results : r.result = Result(Plan[r.step].calls[r.thread], Input(Plan[r.step].calls[r.thread], DiskAt(Plan, r.step - 1))))
PathOf(f) == CASE f = "a" -> NbA [] f = "b" -> NbG [] f = "t" -> NbT [] OTHER -> NbGT
WItem(f, x, keep) == [p |-> PathOf(f), c |-> x, keep |-> keep]
CallOf(c, r) == [m |-> c[1], rep |-> Reps(c), expect |-> r.result, key |-> <<c, r.input>>] @@ IF c[1] = "buffer" THEN [c |-> c[2], n |-> c[3]] ELSE [f |-> c[2]]
At(j, t) == CHOOSE r \in results : r.step = j /\ r.thread = t
CaseOf == [op |-> "session", id |-> <<"session", Part, i>>, steps |-> << [w |-> <<WItem("a", Disk0.a, FALSE), WItem("b", Disk0.b, FALSE), WItem("t", Disk0.t, FALSE), WItem("g", "t3", FALSE)>>] >> \o
  [j \in 1..Len(Plan) |-> IF "w" \in DOMAIN Plan[j] THEN [w |-> <<WItem(Plan[j].w[1], Plan[j].w[2], Plan[j].keep)>>] ELSE [calls |-> [t \in 1..Len(Plan[j].calls) |-> CallOf(Plan[j].calls[t], At(j, t))]]]]
Emitted == ~Busy => EmitCase(CaseOf)
===========================================================================
