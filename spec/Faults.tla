------------------------------- MODULE Faults -------------------------------
(* P19: in the documents of Layouts, any one part that the document is made *)
(* of is lost or replaced by one of another type: there is no document.     *)
(* Parts nothing refers to may be lost.                                     *)
EXTENDS Layouts
CONSTANTS Sample
Str(k) == ToString(k)
Lost(x) == [drop |-> <<x>>]
Replaced(x) == [wrong |-> <<x>>]
Both(x) == <<Lost(x), Replaced(x)>>
SpaceParts(x, sp, d) ==
  LET k == d.cur v == d.via os == SetToSeq(DOMAIN sp.objs) IN
  <<Lost("cellmap:" \o x)>> \o
  (IF v \in {"", "cmdirect"} THEN Both("cm:" \o x) ELSE <<>>) \o
  Concat([r \in 1..k |->
    (IF (r = k /\ v \in {"", "map", "serial"}) \/ (r < k /\ d.base # "direct") THEN <<Lost("revmap:" \o x \o ":" \o Str(r))>> ELSE <<>>) \o
    Both("rm:" \o x \o ":" \o Str(r)) \o Both("og:" \o x \o ":" \o Str(r) \o ":1") \o
    (IF DOMAIN d.revs[r].objs \ UNION {DOMAIN d.revs[q].objs : q \in (r + 1)..k} # {} THEN <<Lost("lastdata:og:" \o x \o ":" \o Str(r) \o ":1")>> ELSE <<>>)]) \o
  Concat([i \in 1..Cardinality(DOMAIN sp.objs) |-> LET o == os[i] IN <<Lost("part4:" \o o), Lost("part1:" \o o), Lost("excl1:" \o o)>>])
FileParts == <<Lost("si"), Lost("sm"), Replaced("sm"), Replaced("si"), Lost("root:@hdr"), Lost("root:@dat"), Lost("cellmap:@hdr"), Lost("cm:@hdr"), Replaced("cm:@hdr"),
  Lost("revmap:@hdr"), Lost("rm:@hdr"), Replaced("rm:@hdr"), Lost("og:@hdr"), Replaced("og:@hdr"), Lost("part1:hdrobj"), Lost("excl1:hdrobj"),
  [hdr |-> "noid"], [hdr |-> "noanc"], [hdr |-> "nocrc"]>>
IdleParts == <<Lost("extra:0"), [hdr |-> "nover"], [decoy |-> <<"si", "sm">>]>>
PartsOf(d, Sp) ==
  LET xs == SetToSeq(DOMAIN Sp) bs == SetToSeq(BlobNames(Sp)) IN
  FileParts \o Concat([j \in 1..Len(xs) |-> SpaceParts(xs[j], Sp[xs[j]], d.spaces[xs[j]])] ) \o Concat([j \in 1..Len(bs) |-> Both("blob:" \o bs[j])])
FInit == n = Shard
FNext == n + Shards < Limit /\ n' = n + Shards
FCase(i, d, p, e) == SectionCase(<<"fault", VSeed, Salt, i, p>>, p @@ d, <<NoLayout>>, e)
Chosen(i, j) == (i * 31 + j) % Sample = 0
\* every file that is stored has at least these parts
\* objects of the document
Small(Sp) == Cardinality({<<x, o>> \in (DOMAIN Sp) \X UNION {DOMAIN Sp[y].objs : y \in DOMAIN Sp} : o \in DOMAIN Sp[x].objs}) <= 90
FEmitted == (n < Limit /\ Small(SpOf(n))) => LET d == TLCEval(DocOf(n)) Sp == SpOf(n) e == TLCEval(Expect(Sp, Fname)) ps == TLCEval(PartsOf(d, Sp)) IN
  /\ Len(ps) >= Len(FileParts) + 8
  /\ e.ok
  /\ \A j \in 1..Len(ps) : Chosen(n, j) => EmitCase(FCase(n, d, ps[j], [ok |-> FALSE]))
  /\ \A j \in 1..Len(IdleParts) : EmitCase(FCase(n, d, IdleParts[j], e))
============================================================================
