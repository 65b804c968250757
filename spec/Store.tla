-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* From the elements of a package to the objects of the object spaces:     *)
(* storage index, storage manifest, cells, revisions, groups, objects and  *)
(* the assignment of references (P01, P02, P05, P11, P18).                 *)
(*                                                                         *)
(* The result of Meaning(B) is [ok |-> FALSE] for a file that has to be    *)
(* rejected, [any |-> TRUE] for one whose meaning the format leaves open,  *)
(* or what the API shows for the section (Content).                        *)
(***************************************************************************)
EXTENDS Wire, Content, Codes
Failed == [ok |-> FALSE]
Open == [any |-> TRUE]
Fun == [x \in {} |-> 0]
LastWins(q, K(_), V(_)) == FoldLeft(LAMBDA m, x : (K(x) :> V(x)) @@ m, Fun, q)
Name(x) == ToString(x)
\* the order of identifiers
Order(x) == <<x[4], x[3], x[2], x[1], x[6], x[5], x[8], x[7]>> \o SubSeq(x, 9, 16) \o <<x[20], x[19], x[18], x[17]>>
Less(a, b) == \E j \in 1..Len(a) : a[j] < b[j] /\ (\A q \in 1..(j - 1) : a[q] = b[q])
Least(S, F1(_)) == CHOOSE x \in S : \A y \in S \ {x} : Less(F1(x), F1(y))
CellOrder(c) == Order(c[1]) \o Order(c[2])

(* Properties of an object: parsed, then given their targets *)
PropName == TLCEval(LastWins(PropertyCodes, LAMBDA x : x[2], LAMBDA x : x[1]))
KindName == TLCEval(LastWins(KindCodes, LAMBDA x : x[2], LAMBDA x : x[1]))
Code(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (b[4] % 4)
MaxNesting == 64
RECURSIVE PropSet(_, _, _)
PropVal(D, i, b, depth) ==
  LET ty == (b[4] \div 4) % 32 c == Code(b) n == IF c \in DOMAIN PropName THEN PropName[c] ELSE "?" \o ToString(c) IN
  CASE ty = 1 -> At(i, [n |-> n, t |-> 1])
    [] ty = 2 -> At(i, [n |-> n, t |-> 2, v |-> <<b[4] \div 128>>])
    [] ty \in 3..6 -> Then(Take(D, i, 2^(ty - 3)), LAMBDA j, v : At(j, [n |-> n, t |-> ty, v |-> v]))
    [] ty = 7 -> Then(Get32(D, i), LAMBDA j, m : Then(Take(D, j, m), LAMBDA k, v : At(k, [n |-> n, t |-> 7, v |-> v])))
    [] ty \in {8, 10, 12} -> At(i, [n |-> n, t |-> ty, c |-> 1])
    [] ty \in {9, 11, 13} -> Then(Get32(D, i), LAMBDA j, m : At(j, [n |-> n, t |-> ty, c |-> m]))
    [] ty = 16 -> IF depth + 1 >= MaxNesting THEN Bad ELSE
                  Then(Get32(D, i), LAMBDA j, m : Then(Take(D, j, 4), LAMBDA k, x :
                  IF m > Len(D) THEN Bad ELSE Then(Times(D, k, m, LAMBDA E, q : PropSet(E, q, depth + 1), <<>>), LAMBDA z, ss : At(z, [n |-> n, t |-> 16, s |-> ss]))))
    [] ty = 17 -> IF depth + 1 >= MaxNesting THEN Bad ELSE Then(PropSet(D, i, depth + 1), LAMBDA j, s : At(j, [n |-> n, t |-> 17, s |-> <<s>>]))
    [] OTHER -> Bad
RECURSIVE PropVals(_, _, _, _, _)
PropVals(D, i, ids, depth, acc) == IF ids = <<>> THEN At(i, acc) ELSE Then(PropVal(D, i, Head(ids), depth), LAMBDA j, p : PropVals(D, j, Tail(ids), depth, Append(acc, p)))
PropSet(D, i, depth) == Then(Get16(D, i), LAMBDA j, m : Then(Take(D, j, 4 * m), LAMBDA k, bs :
  PropVals(D, k, [q \in 1..m |-> SubSeq(bs, 4 * q - 3, 4 * q)], depth, <<>>)))
\* stream of compact identifiers: [c |-> identifiers, ext, none]
IdStream(D, i) == Then(Take(D, i, 4), LAMBDA j, b : Then(Take(D, j, 4 * (b[1] + 256 * b[2] + 65536 * b[3])), LAMBDA k, bs :
  At(k, [c |-> [q \in 1..(Len(bs) \div 4) |-> SubSeq(bs, 4 * q - 3, 4 * q)], ext |-> (b[4] \div 64) % 2 = 1, none |-> b[4] >= 128])))
NoStream == [c |-> <<>>, ext |-> FALSE, none |-> FALSE]
ObjProps(D) == Then(IdStream(D, 1), LAMBDA i, os :
  Then(IF os.none THEN At(i, NoStream) ELSE IdStream(D, i), LAMBDA j, ss :
  Then(IF os.none \/ ~ss.ext THEN At(j, NoStream) ELSE IdStream(D, j), LAMBDA k, cs :
  Then(PropSet(D, k, 0), LAMBDA m, ps : At(m, [os |-> os.c, ss |-> ss.c, cs |-> cs.c, ps |-> ps])))))
\* entries <<position, compact identifier, target>>: the target of a position
Lookup(E, pos, c) == LET M == SelectSeq(E, LAMBDA e : e[2] = c) Q == SelectSeq(M, LAMBDA e : e[1] = pos) IN
  IF Len(M) = 1 THEN <<M[1][3]>> ELSE IF Q # <<>> THEN <<Q[1][3]>> ELSE <<>>
RECURSIVE Assign(_, _, _, _)
\* a |-> [o, s: positions, ps: properties so far, any]
Assign(ps, OT, ST, a0) == FoldLeft(LAMBDA a, p :
  CASE p.t \in {8, 9} -> IF p.c = Huge \/ p.c > Len(OT) - a.o THEN [a EXCEPT !.any = TRUE]
                         ELSE [a EXCEPT !.o = @ + p.c, !.ps = Append(@, [n |-> p.n, t |-> p.t, r |-> SubSeq(OT, a.o + 1, a.o + p.c)])]
    [] p.t \in {10, 11} -> IF p.c = Huge \/ p.c > Len(ST) - a.s THEN [a EXCEPT !.any = TRUE]
                         ELSE [a EXCEPT !.s = @ + p.c, !.ps = Append(@, [n |-> p.n, t |-> p.t, r |-> SubSeq(ST, a.s + 1, a.s + p.c)])]
    [] p.t \in {16, 17} -> LET x == FoldLeft(LAMBDA z, s : LET y == Assign(s, OT, ST, [z.a EXCEPT !.ps = <<>>]) IN [a |-> y, ss |-> Append(z.ss, y.ps)], [a |-> a, ss |-> <<>>], p.s) IN
                         [x.a EXCEPT !.ps = Append(a.ps, [n |-> p.n, t |-> p.t, s |-> x.ss])]
    [] OTHER -> [a EXCEPT !.ps = Append(@, p)], a0, ps)
RECURSIVE Twice(_)
Twice(ps) == Cardinality({ps[j].n : j \in 1..Len(ps)}) # Len(ps) \/ (\E j \in 1..Len(ps) : ps[j].t \in {16, 17} /\ (\E q \in 1..Len(ps[j].s) : Twice(ps[j].s[q])))
\* object of group data: refs, cells and bytes
ObjectOf(space, meta, data, blob) ==
  IF Len(meta) < 4 THEN Failed
  ELSE LET r == ObjProps(data[4]) refs == data[2] cells == data[3] IN
  IF r.i = 0 THEN Failed
  ELSE LET x == r.v ctx == SelectSeq(cells, LAMBDA c : c[2] = space) far == SelectSeq(cells, LAMBDA c : c[2] # space) IN
  IF Len(x.os) < Len(refs) \/ Len(x.cs) + Len(x.ss) # Len(cells) THEN Failed
  ELSE LET m == Len(refs) l == IF Len(x.cs) < Len(ctx) THEN Len(x.cs) ELSE Len(ctx) f == IF Len(x.ss) < Len(far) THEN Len(x.ss) ELSE Len(far)
           E == TLCEval([j \in 1..m |-> <<j, x.os[j], refs[j]>>] \o [j \in 1..l |-> <<m + j, x.cs[j], ctx[j][1]>>])
           FE == TLCEval([j \in 1..f |-> <<j, x.ss[j], far[j]>>])
           OT == TLCEval([j \in 1..Len(x.os) |-> LET t == Lookup(E, j, x.os[j]) IN IF t = <<>> THEN "" ELSE Name(t[1])])
           ST == TLCEval([j \in 1..Len(x.ss) |-> LET t == Lookup(FE, j, x.ss[j]) IN IF t = <<>> THEN "" ELSE Name(t[1])])
           a == Assign(x.ps, OT, ST, [o |-> 0, s |-> 0, ps |-> <<>>, any |-> FALSE])
           kc == IF meta[4] = 0 THEN meta[1] + 256 * meta[2] + 65536 * meta[3] ELSE -1
       IN [ok |-> TRUE, any |-> a.any \/ Twice(x.ps) \/ (\E j \in 1..m : refs[j] = Nil) \/ (\E j \in 1..Len(ST) : ST[j] = ""),
           o |-> [k |-> IF kc \in DOMAIN KindName THEN KindName[kc] ELSE "?", p |-> a.ps, b |-> blob]]
(* Spaces *)
OBJECT == 22
BLOBREF == 28
Headed(b) == b.ok
RECURSIVE Revisions(_, _, _, _, _)
\* adds the objects of group g to s |-> [ok, any, roots, objs]
AddGroup(T, space, g, s0) ==
  LET m == IF Len(g.decls) < Len(g.data) THEN Len(g.decls) ELSE Len(g.data)
      D == TLCEval(LastWins([j \in 1..m |-> j], LAMBDA j : <<g.decls[j][2], g.decls[j][3]>>, LAMBDA j : g.data[j]))
      Obj1(x) == IF Len(g.decls) # Len(g.data) \/ <<x, 4>> \notin DOMAIN D \/ <<x, 1>> \notin DOMAIN D THEN Failed
                 ELSE IF D[<<x, 4>>][1] # OBJECT \/ D[<<x, 1>>][1] # OBJECT THEN Failed
                 ELSE IF <<x, 2>> \notin DOMAIN D THEN ObjectOf(space, D[<<x, 4>>][4], D[<<x, 1>>], <<>>)
                 ELSE LET b == D[<<x, 2>>] IN IF b[1] # BLOBREF THEN Failed ELSE IF b[4] \notin DOMAIN T.blobs THEN Failed
                      ELSE ObjectOf(space, D[<<x, 4>>][4], D[<<x, 1>>], <<[b |-> T.blobs[b[4]]]>>)
  IN FoldLeft(LAMBDA s, d : IF ~s.ok \/ Name(d[2]) \in DOMAIN s.objs THEN s
       ELSE LET r == Obj1(d[2]) IN IF ~r.ok THEN [s EXCEPT !.ok = FALSE]
            ELSE [s EXCEPT !.any = @ \/ r.any, !.objs = (Name(d[2]) :> r.o) @@ @], s0, g.decls)
RoleGuid == HexGuid(<<74, 55, 23, 248>>, <<28, 20>>, <<73, 231>>, <<149, 38, 129, 217, 66, 222, 23, 65>>)
Role(x) == IF SubSeq(x, 1, 16) = RoleGuid /\ x[18] = 0 /\ x[19] = 0 /\ x[20] = 0 /\ x[17] \in 1..4 THEN <<"content", "metadata", "encryption", "version">>[x[17]] ELSE ""
OfType(es, ty) == SelectSeq(es, LAMBDA e : e[1] = ty)
Mapped(T, x) == IF x \in DOMAIN T.revmap THEN <<T.revmap[x][1]>> ELSE IF x \in DOMAIN T.rms THEN <<x>> ELSE <<>>
MappedCell(T, x) == IF x \in DOMAIN T.cms /\ Mapped(T, T.cms[x]) # <<>> THEN Mapped(T, T.cms[x]) ELSE Mapped(T, x)
BySerial(T, s) == LET S == {x \in DOMAIN T.revmap : T.revmap[x][2] = s} IN IF S = {} THEN <<>> ELSE <<T.revmap[Least(S, Order)][1]>>
Revisions(T, space, rm, seen, s) ==
  IF ~s.ok THEN s
  ELSE IF rm \in seen \/ rm \notin DOMAIN T.rms THEN [s EXCEPT !.ok = FALSE]
  ELSE LET r == T.rms[rm] base == IF r.base = Nil THEN <<>> ELSE Mapped(T, r.base)
           rs == OfType(r.entries, 10) gs == OfType(r.entries, 25)
           declared == LastWins(rs, LAMBDA e : Role(e[2]), LAMBDA e : Name(e[3]))
           more == [s EXCEPT !.roots = @ @@ declared, !.any = @ \/ (\E j \in 1..Len(rs) : rs[j][3] = Nil)]
           done == FoldLeft(LAMBDA a, g : IF ~a.ok THEN a ELSE IF g[2] \notin DOMAIN T.ogs THEN [a EXCEPT !.ok = FALSE] ELSE AddGroup(T, space, T.ogs[g[2]], a), more, gs)
       IN IF (r.base # Nil /\ base = <<>>) \/ (\E j \in 1..Len(rs) : Role(rs[j][2]) = "") THEN [s EXCEPT !.ok = FALSE]
          ELSE IF base = <<>> THEN done ELSE Revisions(T, space, base[1], seen \union {rm}, TLCEval(done))
EmptySpace == [ok |-> TRUE, any |-> FALSE, roots |-> Fun, objs |-> Fun]
SpaceOf(T, cell) ==
  IF cell \notin DOMAIN T.cellmap THEN Failed
  ELSE LET m == T.cellmap[cell] a == MappedCell(T, m[1]) rm == IF a # <<>> THEN a ELSE BySerial(T, m[2]) IN
  IF rm = <<>> THEN IF m[1] \in DOMAIN T.cms /\ T.cms[m[1]] = Nil THEN EmptySpace ELSE Failed
  ELSE Revisions(T, cell[2], rm[1], {}, EmptySpace)
(* The store *)
HeaderRoot == HexGuid(<<26, 90, 49, 156>>, <<194, 107>>, <<65, 170>>, <<185, 197, 155, 216, 196, 78, 7, 212>>) \o <<1, 0, 0, 0>>
DataRoot == HexGuid(<<132, 222, 250, 185>>, <<170, 163>>, <<74, 13>>, <<163, 168, 82, 12, 119, 172, 112, 115>>) \o <<2, 0, 0, 0>>
HeaderOK(T, mid) ==
  LET a == MappedCell(T, mid) C == {c \in DOMAIN T.cellmap : T.cellmap[c][1] = mid}
      rm == IF a # <<>> THEN a ELSE IF C = {} THEN <<>> ELSE BySerial(T, T.cellmap[Least(C, CellOrder)][2])
  IN rm # <<>> /\ rm[1] \in DOMAIN T.rms /\
     LET gs == OfType(T.rms[rm[1]].entries, 25) IN
     gs # <<>> /\ (\A j \in 1..Len(gs) : gs[j][2] \in DOMAIN T.ogs) /\
     LET g == T.ogs[gs[1][2]] m == IF Len(g.decls) < Len(g.data) THEN Len(g.decls) ELSE Len(g.data)
         J == {j \in 1..m : g.decls[j][3] = 1}
     IN J # {} /\ LET d == g.data[MinOf(J)] IN d[1] = OBJECT /\
        LET r == ObjProps(d[4]) IN r.i # 0 /\
        LET k == LastWins(r.v.ps, LAMBDA p : p.n, LAMBDA p : p)
            IsGuid(n) == n \in DOMAIN k /\ k[n].t = 7 /\ Len(k[n].v) >= 16
        IN IsGuid("FileIdentityGuid") /\ IsGuid("FileAncestorIdentityGuid") /\ "FileNameCrc" \in DOMAIN k /\ k["FileNameCrc"].t = 5 /\
           ("FileLastCodeVersionThatWroteToIt" \in DOMAIN k => k["FileLastCodeVersionThatWroteToIt"].t = 5)
SectionSchema == HexGuid(<<31, 147, 124, 180>>, <<178, 111>>, <<68, 95>>, <<185, 248, 23, 226, 1, 96, 228, 97>>)
ById(es, ty) == LastWins(SelectSeq(es, LAMBDA e : e.ty = ty), LAMBDA e : e.id, LAMBDA e : e.v)
\* the store of a package: [ok, any, schema, root, spaces]
StoreOf(pkg) ==
  LET es == pkg.elements sis == TLCEval(ById(es, 1)) sms == TLCEval(ById(es, 2)) IN
  IF sis = Fun \/ sms = Fun THEN Failed
  ELSE LET si == IF pkg.index \in DOMAIN sis THEN sis[pkg.index] ELSE sis[Least(DOMAIN sis, Order)]
           mm == SelectSeq(OfType(si, 17), LAMBDA e : e[2] \in DOMAIN sms)
           sm == IF mm # <<>> THEN sms[mm[1][2]] ELSE sms[Least(DOMAIN sms, Order)]
           roots == LastWins(sm.roots, LAMBDA e : e[2], LAMBDA e : e[3])
           T == TLCEval([cms |-> ById(es, 3), rms |-> ById(es, 4), ogs |-> ById(es, 5), blobs |-> ById(es, 10),
                         cellmap |-> LastWins(OfType(si, 14), LAMBDA e : e[2], LAMBDA e : <<e[3], e[4]>>),
                         revmap |-> LastWins(OfType(si, 13), LAMBDA e : e[2], LAMBDA e : <<e[3], e[4]>>)])
       IN IF HeaderRoot \notin DOMAIN roots \/ DataRoot \notin DOMAIN roots THEN Failed
          ELSE IF roots[HeaderRoot] \notin DOMAIN T.cellmap THEN Failed
          ELSE IF ~HeaderOK(T, T.cellmap[roots[HeaderRoot]][1]) THEN Failed
          ELSE LET C == {c \in DOMAIN T.cellmap : T.cellmap[c][1] # Nil} \ {roots[HeaderRoot], roots[DataRoot]}
                   root == TLCEval(SpaceOf(T, roots[DataRoot])) sp == TLCEval([c \in C |-> SpaceOf(T, c)])
               IN IF ~root.ok \/ (\E c \in C : ~sp[c].ok) THEN Failed
                  ELSE [ok |-> TRUE, any |-> root.any \/ (\E c \in C : sp[c].any) , schema |-> sm.schema,
                        root |-> [roots |-> root.roots, objs |-> root.objs],
                        spaces |-> LastWins(SetToSeq(C), LAMBDA c : Name(c), LAMBDA c : [roots |-> sp[c].roots, objs |-> sp[c].objs])]
\* what a reader shows for the bytes B of a section
Meaning(B, fname) ==
  LET p == Package(B) IN
  IF p.i = 0 THEN Failed
  ELSE LET s == StoreOf(p.v) IN
  IF ~s.ok THEN Failed
  ELSE IF s.schema # SectionSchema THEN Failed
  ELSE IF s.any THEN Open ELSE SectionExpect(s.root, s.spaces, fname)
==============================================================================
