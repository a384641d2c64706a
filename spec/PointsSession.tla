---------------------------- MODULE PointsSession ----------------------------
(* A user session on point clouds: a growing collection of clouds on which    *)
(* the geometric transforms, clip, slice and merge are applied in any order.  *)
(* A cloud is a sequence of rows [p: coordinates, n: normal, t: tag, b: batch *)
(* element]; all attributes of a row travel together.  Coordinates are        *)
(* integers (in 1/256), normals are signed axis directions, so every effect   *)
(* is exact.  The other attributes of the real clouds (features, labels) are  *)
(* functions of the tag.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxObj
VARIABLES clouds

U == 256
Ax(a, s) == [k \in 1..3 |-> IF k = a THEN s ELSE 0]
Row(x, y, z, a, s, t) == [p |-> << x, y, z >>, n |-> Ax(a, s), t |-> t, b |-> 0]
Pool == << << Row(64, -128, 192, 1, 1, 1), Row(-192, 64, 0, 2, -1, 2), Row(128, 128, -64, 3, 1, 3), Row(-64, -64, -64, 3, -1, 4) >>,
           << Row(0, 0, 0, 1, -1, 5), Row(0, 0, 0, 2, 1, 6), Row(-256, 256, 128, 3, -1, 7) >>,
           << Row(192, 192, 192, 2, 1, 8) >> >>
\* [rs: rows, bs: batch size, hb: has a batch id, np: sizes of the elements or <<>>]
Cl(rs, bs, hb, np) == [rs |-> rs, bs |-> bs, hb |-> hb, np |-> np]

C(c, i, j, a) == [c |-> c, i |-> i, j |-> j, a |-> a]
Map(c, F(_)) == LET rs == TLCEval([k \in 1..Len(c.rs) |-> LET y == F(c.rs[k]) IN TLCEval([y EXCEPT !.p = TLCEval(y.p), !.n = TLCEval(y.n)])])
                IN [c EXCEPT !.rs = rs]
Keep(c, idx) == LET ix == TLCEval(idx) IN Cl(TLCEval([k \in 1..Len(ix) |-> c.rs[ix[k]]]), c.bs, c.hb, <<>>)
Ids(c) == [k \in 1..Len(c.rs) |-> k]
Absv(n) == IF n < 0 THEN -n ELSE n
Sg(n) == IF n < 0 THEN -1 ELSE 1

\* ---- effects
Trans(c, t) == Map(c, LAMBDA r: [r EXCEPT !.p = [k \in 1..3 |-> r.p[k] + t[k]]])
Flip(c, s) == Map(c, LAMBDA r: [r EXCEPT !.p = [k \in 1..3 |-> s[k] * r.p[k]], !.n = [k \in 1..3 |-> s[k] * r.n[k]]])
\* q quarter turns about axis a, counter-clockwise
Qx(v) == << v[1], -v[3], v[2] >>
Qy(v) == << v[3], v[2], -v[1] >>
Qz(v) == << -v[2], v[1], v[3] >>
RECURSIVE Turn(_, _, _)
Turn(v, a, q) == IF q = 0 THEN v
                 ELSE Turn(CASE a = 1 -> Qx(v) [] a = 2 -> Qy(v) [] OTHER -> Qz(v), a, q - 1)
RotV(v, q) == Turn(Turn(Turn(v, 1, q[1]), 2, q[2]), 3, q[3])
Rotate(c, q) == Map(c, LAMBDA r: [r EXCEPT !.p = RotV(r.p, q), !.n = RotV(r.n, q)])
\* scaling by f/2; the normal turns only when the factors differ
ScaleC(c, f) == Map(c, LAMBDA r: [r EXCEPT !.p = [k \in 1..3 |-> (r.p[k] * f[k]) \div 2],
                       !.n = IF f[1] = f[2] /\ f[2] = f[3] THEN r.n ELSE [k \in 1..3 |-> Sg(f[k]) * r.n[k]]])
CanScale(c, f) == \A k \in 1..Len(c.rs) : \A a \in 1..3 : (c.rs[k].p[a] * f[a]) % 2 = 0 /\ Absv(c.rs[k].p[a] * f[a]) <= 16 * U
CanTrans(c, t) == \A k \in 1..Len(c.rs) : \A a \in 1..3 : Absv(c.rs[k].p[a] + t[a]) <= 8 * U
Orient(c, ax) == Map(c, LAMBDA r: [r EXCEPT !.n = [k \in 1..3 |-> IF ax = 4 \/ (r.n[ax] # 0) THEN (IF ax = 4 \/ k = ax THEN Absv(r.n[k]) ELSE r.n[k]) ELSE r.n[k]]])
\* orienting along an axis the normal has no component of leaves its sign free
CanOrient(c, ax) == ax = 4 \/ \A k \in 1..Len(c.rs) : c.rs[k].n[ax] # 0
\* the open box (lo, hi), in U; never equal to a coordinate
ClipIdx(c, lo, hi) == SelectSeq(Ids(c), LAMBDA k: \A a \in 1..3 : c.rs[k].p[a] > lo /\ c.rs[k].p[a] < hi)
Clip(c, lo, hi) == Keep(c, ClipIdx(c, lo, hi))
CanClip(c, lo, hi) == \A k \in 1..Len(c.rs) : \A a \in 1..3 : c.rs[k].p[a] # lo /\ c.rs[k].p[a] # hi
SliceIdx(c, h) == CASE h = "odd" -> SelectSeq(Ids(c), LAMBDA k: k % 2 = 1)
                    [] h = "tail" -> SelectSeq(Ids(c), LAMBDA k: k > 1)
                    [] h = "rev" -> [k \in 1..Len(c.rs) |-> Len(c.rs) + 1 - k]
                    [] h = "dup" -> IF Len(c.rs) = 0 THEN <<>> ELSE Ids(c) \o << 1 >>
                    [] h = "none" -> <<>>
Slice(c, h) == Keep(c, SliceIdx(c, h))
Tag(rs, b) == TLCEval([k \in 1..Len(rs) |-> [rs[k] EXCEPT !.b = b]])
RECURSIVE CatM(_, _)
CatM(cs, b) == IF cs = <<>> THEN <<>> ELSE Tag(Head(cs).rs, b) \o CatM(Tail(cs), b + 1)
Merge(cs) == Cl(TLCEval(CatM(cs, 0)), Len(cs), TRUE, [k \in 1..Len(cs) |-> Len(cs[k].rs)])

\* ---- the commands possible now, a sequence per operation
Obs == 1..Len(clouds)
\* SS: an explicit sequence of arguments; i ranges over the clouds
OverI(args, nm, Can(_, _)) ==
  LET n == Len(args)
      all == [k \in 1..(Len(clouds) * n) |-> C(nm, ((k - 1) \div n) + 1, 0, args[((k - 1) % n) + 1])]
  IN SelectSeq(all, LAMBDA c: Can(clouds[c.i], c.a))
Room == Len(clouds) < MaxObj
News == IF ~Room THEN <<>> ELSE [k \in 1..Len(Pool) |-> C("new", 0, 0, << k >>)]
Transs == OverI(<< << 64, 0, -128 >>, << -64, -64, 64 >>, << 0, 0, 256 >> >>, "translate", CanTrans)
Flips == OverI(<< << -1, 1, 1 >>, << 1, -1, 1 >>, << -1, 1, -1 >>, << 1, 1, 1 >> >>, "flip", LAMBDA c, a: TRUE)
Rots == OverI(<< << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >>, << 2, 1, 0 >>, << 1, 3, 2 >>, << 0, 0, 0 >> >>, "rotate", LAMBDA c, a: TRUE)
Scales == OverI(<< << 4, 4, 4 >>, << 1, 1, 1 >>, << -2, -2, -2 >>, << 2, -2, 2 >>, << 1, 4, -2 >>, << 2, 2, 2 >> >>, "scale", CanScale)
Orients == OverI(<< << 1 >>, << 2 >>, << 3 >>, << 4 >> >>, "orient", LAMBDA c, a: CanOrient(c, a[1]))
Clips == OverI(<< << -200, 200 >>, << -130, 300 >>, << -40, 1000 >> >>, "clip", LAMBDA c, a: CanClip(c, a[1], a[2]))
Slices == IF ~Room THEN <<>> ELSE OverI(<< << "odd" >>, << "tail" >>, << "rev" >>, << "dup" >>, << "none" >> >>, "slice", LAMBDA c, a: Len(c.rs) <= 6)
Merges == IF ~Room \/ Len(clouds) = 0 THEN <<>>
          ELSE LET n == Len(clouds)
               IN SelectSeq([k \in 1..(n * n) |-> C("merge", ((k - 1) \div n) + 1, ((k - 1) % n) + 1, << >>)],
                            LAMBDA c: Len(clouds[c.i].rs) + Len(clouds[c.j].rs) <= 9)
               \o SelectSeq([k \in 1..n |-> C("merge", k, 0, << >>)], LAMBDA c: Len(clouds[c.i].rs) <= 9)

Eff(h, c) ==
  LET set(x) == [h EXCEPT ![c.i] = x]
  IN CASE c.c = "new" -> Append(h, Cl(Pool[c.a[1]], 1, FALSE, <<>>))
       [] c.c = "translate" -> set(Trans(h[c.i], c.a))
       [] c.c = "flip" -> set(Flip(h[c.i], c.a))
       [] c.c = "rotate" -> set(Rotate(h[c.i], c.a))
       [] c.c = "scale" -> set(ScaleC(h[c.i], c.a))
       [] c.c = "orient" -> set(Orient(h[c.i], c.a[1]))
       [] c.c = "clip" -> set(Clip(h[c.i], c.a[1], c.a[2]))
       [] c.c = "slice" -> Append(h, Slice(h[c.i], c.a[1]))
       [] c.c = "merge" -> Append(h, Merge(IF c.j = 0 THEN << h[c.i] >> ELSE << h[c.i], h[c.j] >>))

-----------------------------------------------------------------------------
(* what the transforms promise, for every cloud of every reachable heap       *)
DotV(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
SameRows(c, d) == c.rs = d.rs
Unit(r) == Absv(r.n[1]) + Absv(r.n[2]) + Absv(r.n[3]) = 1
RowsOk == \A i \in Obs : LET c == clouds[i] IN
  /\ \A k \in 1..Len(c.rs) : Unit(c.rs[k]) /\ c.rs[k].t \in 1..8 /\ c.rs[k].b \in 0..(c.bs - 1)
  /\ c.np # <<>> => /\ Len(c.np) = c.bs
                    /\ \A b \in 1..c.bs : c.np[b] = Cardinality({ k \in 1..Len(c.rs) : c.rs[k].b = b - 1 })
Inverses == \A i \in Obs : LET c == clouds[i] IN
  /\ SameRows(Trans(Trans(c, << 64, -3, 7 >>), << -64, 3, -7 >>), c)
  /\ \A s \in {1, -1} \X {1, -1} \X {1, -1} : SameRows(Flip(Flip(c, s), s), c)
  /\ \A a \in 1..3 : LET q == TLCEval([k \in 1..3 |-> IF k = a THEN 1 ELSE 0])
                         q3 == TLCEval([k \in 1..3 |-> IF k = a THEN 3 ELSE 0])
                     IN SameRows(Rotate(Rotate(c, q), q3), c)
  /\ SameRows(ScaleC(ScaleC(c, << 4, 4, 4 >>), << 1, 1, 1 >>), c)
  /\ SameRows(ScaleC(ScaleC(c, << 4, -4, 4 >>), << 1, -1, 1 >>), c)
  \* an even number of mirrored axes is a half turn
  /\ SameRows(Flip(c, << -1, -1, 1 >>), Rotate(c, << 0, 0, 2 >>))
  /\ SameRows(Flip(c, << 1, -1, -1 >>), Rotate(c, << 2, 0, 0 >>))
\* rigid motions keep distances and the angle between normals and offsets
Rigid == \A i \in Obs : LET c == clouds[i] IN
  \A q \in { << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >>, << 1, 3, 2 >> } :
    LET d == TLCEval(Rotate(c, q))
        diff(x, k, l) == [a \in 1..3 |-> x.rs[k].p[a] - x.rs[l].p[a]]
    IN \A k, l \in 1..Len(c.rs) :
         /\ DotV(diff(c, k, l), diff(c, k, l)) = DotV(diff(d, k, l), diff(d, k, l))
         /\ DotV(c.rs[k].n, diff(c, k, l)) = DotV(d.rs[k].n, diff(d, k, l))
         /\ DotV(c.rs[k].n, c.rs[l].n) = DotV(d.rs[k].n, d.rs[l].n)
Selections == \A i \in Obs : LET c == clouds[i] IN
  /\ SameRows(Clip(Clip(c, -200, 200), -200, 200), Clip(c, -200, 200))
  /\ SameRows(Clip(Flip(c, << -1, 1, -1 >>), -200, 200), Flip(Clip(c, -200, 200), << -1, 1, -1 >>))
  /\ SameRows(Slice(Slice(c, "rev"), "rev"), c)
  /\ \A ax \in 1..4 : CanOrient(c, ax) => SameRows(Orient(Orient(c, ax), ax), Orient(c, ax))
  /\ \A ax \in 1..4 : CanOrient(c, ax) => SameRows(Orient(Clip(c, -200, 200), ax), Clip(Orient(c, ax), -200, 200))
\* selecting the rows of one element of a merge gives that cloud back
MergeSplit == \A i, j \in Obs :
  LET m == TLCEval(Merge(<< clouds[i], clouds[j] >>))
      part(b) == SelectSeq(m.rs, LAMBDA r: r.b = b)
  IN part(0) = Tag(clouds[i].rs, 0) /\ part(1) = Tag(clouds[j].rs, 1) /\ m.bs = 2
PointsOk == RowsOk /\ Inverses /\ Rigid /\ Selections /\ MergeSplit
=============================================================================
