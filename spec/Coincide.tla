------------------------------ MODULE Coincide ------------------------------
(* P02, P18: identifiers of different kinds of things have nothing to do    *)
(* with each other: an object, a blob, a group, a revision, a manifest, a   *)
(* cell, a space and a context may have the same identifier without being   *)
(* mistaken for one another.                                                *)
EXTENDS Idents
Things == << <<"X1", "object">>, <<"M", "object">>, <<"FC", "object">>, <<"P", "object">>, <<"blob:b2", "blob">>, <<"blob:b3", "blob">>, <<"og:p1:1:1", "group">>, <<"og:p1:2:1", "group">>, <<"og:R:1:1", "group">>,
  <<"rid:p1:1", "revision">>, <<"rid:p1:2", "revision">>, <<"rid:p2:1", "revision">>, <<"rid:R:1", "revision">>, <<"rid:@hdr", "revision">>,
  <<"rm:p1:1", "manifest">>, <<"rm:p1:2", "manifest">>, <<"rm:p2:1", "manifest">>, <<"rm:R:1", "manifest">>, <<"rm:@hdr", "manifest">>,
  <<"cm:p1", "cell">>, <<"cm:p2", "cell">>, <<"cm:R", "cell">>, <<"cm:@hdr", "cell">>, <<"p1", "space">>, <<"p2", "space">>, <<"R", "space">>, <<"hdrspace", "space">>,
  <<"ctx", "context">>, <<"c1", "context">>, <<"hdrctx", "context">>, <<"sm", "storage manifest">>, <<"si", "storage index">>>>
CoVias == <<"", "serial", "cmdirect">>
Couples == TLCEval(LET q == [j \in 1..(Len(Things) * Len(Things)) |-> <<1 + ((j - 1) % Len(Things)), 1 + ((j - 1) \div Len(Things))>>] IN
             SelectSeq(q, LAMBDA p : p[1] < p[2] /\ Things[p[1]][2] # Things[p[2]][2]))
CoTotal == Len(Couples) * Len(CoVias)
\* where a cell names the manifest of its revision, a revision with that identifier would be meant instead
Ambiguous(p, v) == v = "cmdirect" /\ {Things[p[1]][2], Things[p[2]][2]} = {"revision", "manifest"}
CoCase(i) == LET p == Couples[1 + (i % Len(Couples))] v == CoVias[1 + (i \div Len(Couples))] x == Things[p[1]][1] y == Things[p[2]][1] id == Spec(Gd(i) \o Pick(Seed(VSeed, i), 1, Numbers), Pick(Seed(VSeed, i), 2, Widths)) IN
  SectionCase(<<"coincide", x, y, v>>, IdDoc(v) @@ [ids |-> (x :> id) @@ (y :> id)], Encs(i), Same0)
CoBound == Min2(Limit, CoTotal)
CoNext == n + Shards < CoBound /\ n' = n + Shards
CoEmitted == n < CoBound /\ ~Ambiguous(Couples[1 + (n % Len(Couples))], CoVias[1 + (n \div Len(Couples))]) => EmitCase(CoCase(n))
=============================================================================
