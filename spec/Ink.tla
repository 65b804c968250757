-------------------------------- MODULE Ink --------------------------------
(* P10: a pen writes strokes of some dimensions; every sequence of at most  *)
(* MaxDims dimensions (X, Y and others, also repeated) and up to three      *)
(* points, with every pair of scales; boundary values of coordinates in     *)
(* several forms; malformed paths and bounding boxes.                       *)
EXTENDS Base
CONSTANTS MaxDims, Every
OtherA == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>
\* differ from X and Y in one bit
NearX == [XDim EXCEPT ![1] = IF XDim[1] % 2 = 0 THEN XDim[1] + 1 ELSE XDim[1] - 1]
NearY == [YDim EXCEPT ![16] = IF YDim[16] % 2 = 0 THEN YDim[16] + 1 ELSE YDim[16] - 1]
DimGuid == [X |-> XDim, Y |-> YDim, A |-> OtherA, U |-> NearX, V |-> NearY]
DimNo == [X |-> 1, Y |-> 2, A |-> 3, U |-> 4, V |-> 5]
Scales == << <<>>, <<<<0, 0, 128, 63>>>>, <<<<0, 0, 0, 63>>>>, <<<<0, 0, 64, 192>>>>, <<<<0, 0, 0, 0>>>>, <<<<205, 204, 204, 61>>>>, <<<<0, 0, 128, 127>>>> >>
VARIABLES dims, np, h
Init == dims = <<>> /\ np \in 0..3 /\ h = np + 10 * (VSeed % 5000)
AddDim(d) == dims' = Append(dims, d) /\ h' = (h * 43 + DimNo[d] * 97 + 3) % 65521
Next == Len(dims) < MaxDims /\ UNCHANGED np /\ \E d \in DOMAIN DimGuid : AddDim(d)
SX == Scales[(h % 7) + 1]
SY == Scales[((h \div 7) % 7) + 1]
\* the value of dimension i at point j
At(i, j) == LET m == 100 * i + 7 * j IN IF (i + j) % 3 = 0 THEN MbInt(TRUE, m) ELSE MbInt(FALSE, m)
AtNum(i, j) == [neg |-> (i + j) % 3 = 0, mag |-> LE4(100 * i + 7 * j) \o Zero4]
ScaleProps == OneIf(SX # <<>>, PI("InkScalingX", IF SX = <<>> THEN Zero4 ELSE SX[1])) \o OneIf(SY # <<>>, PI("InkScalingY", IF SY = <<>> THEN Zero4 ELSE SY[1]))
StrokeP(id) == Node("StrokePropertiesNode", <<>>)
SpWith(path, dimbytes, bb, more) ==
  [BaseSp EXCEPT !["p1"].objs =
     ("K" :> [BaseObjs["K"] EXCEPT !.p = Rev(Append(Without(Without(Without(@, "InkData"), "InkScalingX"), "InkScalingY"), PR("InkData", "q")) \o more)]) @@
     ("q" :> Node("InkDataNode", <<PRs("InkStrokes", <<"q1", "KDk">>)>> \o bb)) @@
     ("q1" :> Node("InkStrokeNode", <<PR("InkStrokeProperties", "q1p"), PV("InkPath", path)>>)) @@
     ("q1p" :> [Node("StrokePropertiesNode", <<>>) EXCEPT !.p = Append(@, PV("InkDimensions", dimbytes))]) @@ @]
DimProp(ds) == Concat([i \in 1..Len(ds) |-> DimGuid[ds[i]] \o RBytes(Seed(i, 7), 16)])
SpFor(ds, n) == SpWith(MbInt(FALSE, Len(ds) * n) \o Concat([k \in 1..(Len(ds) * n) |-> At(((k - 1) \div n) + 1, ((k - 1) % n) + 1)]), DimProp(ds),
                       <<PV("InkBoundingBox", LE4(h) \o LE4(5) \o LE4(h + 17) \o LE4(4))>>, Map(LAMBDA p : p, ScaleProps))
InkK(e) == SelectSeq(e.v.series[1][1].contents[1].items[2].contents, LAMBDA c : c.k = "ink")[1]
Mine == (h \div 3) % Shards = Shard
Sound == Mine =>
  LET e == Expect(SpFor(dims, np), Fname) n == Len(dims)
      xs == {i \in 1..n : dims[i] = "X"} ys == {i \in 1..n : dims[i] = "Y"}
  IN IF xs = {} \/ ys = {} THEN ~e.ok
     ELSE LET x == MinOf(xs) y == MinOf(ys) st == InkK(e).strokes IN
          /\ e.ok /\ Len(st) = 2 /\ Len(st[1].path) = np
          /\ \A j \in 1..np : st[1].path[j] = <<Mul(SX, AtNum(x, j)), Mul(SY, AtNum(y, j))>>
Emitted == Mine /\ h % Every = 0 =>
  LET Sp == SpFor(dims, np) IN EmitCase(SectionCase(<<"ink", dims, np, h>>, BaseDoc(Sp), <<NoLayout>>, Expect(Sp, Fname)))
============================================================================
