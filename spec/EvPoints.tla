------------------------------- MODULE EvPoints -------------------------------
(* Point clouds: transforms, slicing, clipping, merging, saving; the data     *)
(* pipeline; moves between devices.                                           *)
(*                                                                            *)
(* The abstract heap holds, for a point cloud, its last recorded projection   *)
(*   [pts, nrm, ft, lb, bid : tensors; bs; npt; ex]                           *)
(* (coordinates in 1/16384, normals in 1/4096; ex: the coordinates are exact  *)
(* in that unit).  Every transform is specified as a relation between the     *)
(* projection before and the projection after.                                *)
EXTENDS EvStruct

PS == 16384
NoneT == [k |-> "none"]
RowsOfT(t, idx) ==       \* rows of a recorded tensor
  IF ~IsT(t) THEN t
  ELSE [t EXCEPT !.sh = << Len(idx) >> \o Tail(t.sh), !.v = [i \in 1..Len(idx) |-> t.v[idx[i]]]]
CatT(ts) ==              \* concatenation of recorded tensors along the rows
  LET n == LET f == [i \in 1..Len(ts) |-> ts[i].sh[1]] IN Sum(f)
  IN [ts[1] EXCEPT !.sh = << n >> \o Tail(ts[1].sh), !.v = Concat([i \in 1..Len(ts) |-> ts[i].v])]
NPts(p) == p.pts.sh[1]
Close3(a, b, tol) == \A j \in 1..3 : Close(a[j], b[j], tol)
\* the recorded tensors agree up to the rounding of the projection
SameVals(t, u) == /\ t.k = u.k
                  /\ t.k = "t" => t.sh = u.sh /\ t.v = u.v

\* attributes that a geometric transform must not touch
OthersSame(p, q) ==
  Chk(p.ft = q.ft, "points.features_changed") \cup Chk(p.lb = q.lb, "points.labels_changed")
  \cup Chk(p.bid = q.bid, "points.batch_id_changed") \cup Chk(p.bs = q.bs, "points.batch_size_changed")
  \cup Chk(p.npt = q.npt, "points.batch_npt_changed")
NrmShape(p, q) == Chk(p.nrm.k = q.nrm.k /\ (IsT(p.nrm) => p.nrm.sh = q.nrm.sh /\ p.nrm.dt = q.nrm.dt), "points.normals.shape")
PtsShape(p, q) == Chk(IsShape(q.pts, <<NPts(p), 3>>), "points.shape") \cup Chk(q.pts.dt = p.pts.dt, "points.dtype")

\* apply a row-wise relation on points and one on normals
Rel(p, q, RP(_, _), RN(_, _), nm) ==
  LET sh == PtsShape(p, q) \cup NrmShape(p, q)
  IN IF sh # {} THEN sh
     ELSE Chk(\A i \in 1..NPts(p) : RP(p.pts.v[i], q.pts.v[i]), nm \o ".points")
          \cup (IF IsT(p.nrm) THEN Chk(\A i \in 1..NPts(p) : RN(p.nrm.v[i], q.nrm.v[i]), nm \o ".normals") ELSE {})

-----------------------------------------------------------------------------
(* rotations: cs[a] = <<cos numerator, sin numerator, denominator>> of the    *)
(* angle about axis a; x first, then y, then z (counter-clockwise, right-     *)
(* handed)                                                                    *)
RotX(v, r) == << v[1], (r[1]*v[2] - r[2]*v[3]) \div r[3], (r[2]*v[2] + r[1]*v[3]) \div r[3] >>
RotY(v, r) == << (r[1]*v[1] + r[2]*v[3]) \div r[3], v[2], (r[1]*v[3] - r[2]*v[1]) \div r[3] >>
RotZ(v, r) == << (r[1]*v[1] - r[2]*v[2]) \div r[3], (r[2]*v[1] + r[1]*v[2]) \div r[3], v[3] >>
Rot(v, cs) == RotZ(RotY(RotX(v, cs[1]), cs[2]), cs[3])
\* error: floor at each step (<= 2 units carried through) plus the error of
\* approximate cosines (1/2 unit of 1/4096 each)
RotTol(v, cs) == 8 + (IF \A a \in 1..3 : cs[a][3] < 100 THEN 0
                      ELSE (Abs(v[1]) + Abs(v[2]) + Abs(v[3])) \div 1024)

FlipV(v, s) == [a \in 1..3 |-> s[a] * v[a]]      \* s[a] in {1, -1}

\* scaling by f / fd
ScaleV(v, f, fd) == [a \in 1..3 |-> (v[a] * f[a]) \div fd]
Sgn(n) == IF n < 0 THEN -1 ELSE 1
ScaleN(n, m, f) ==
  IF f[1] = f[2] /\ f[2] = f[3] THEN Close3(m, n, 1)
  ELSE IF n = <<0,0,0>> THEN m = <<0,0,0>>
  ELSE LET g == Sgn(f[1]) * Sgn(f[2]) * Sgn(f[3])
           c == [a \in 1..3 |-> n[a] \div 4]
           s == << g * c[1] * f[2] * f[3], g * c[2] * f[1] * f[3], g * c[3] * f[1] * f[2] >>
           q == [a \in 1..3 |-> m[a] \div 4]
           mx == Abs(f[2]*f[3]) + Abs(f[1]*f[3]) + Abs(f[1]*f[2])
           tol == 2 * (Abs(s[1]) + Abs(s[2]) + Abs(s[3])) + 1030 * 2 * mx
       IN /\ Close(q[1]*s[2], q[2]*s[1], tol) /\ Close(q[2]*s[3], q[3]*s[2], tol)
          /\ Close(q[1]*s[3], q[3]*s[1], tol)
          /\ q[1]*s[1] + q[2]*s[2] + q[3]*s[3] > -tol
          /\ Close(q[1]*q[1] + q[2]*q[2] + q[3]*q[3], 1024 * 1024, 8 * 1024)

\* orient the normal along an axis (4 = all components)
OrientN(n, m, ax) ==
  IF ax = 4 THEN m = [a \in 1..3 |-> Abs(n[a])]
  ELSE /\ (m = n \/ m = [a \in 1..3 |-> -n[a]])
       /\ m[ax] >= 0

\* normalise with the box <<mn, mx>> to [-sc/4, sc/4]
NormV(v, w, mn, mx, sc) ==
  LET box == LET a == mx[1] - mn[1]  b == mx[2] - mn[2]  c == mx[3] - mn[3]
             IN Max2(a, Max2(b, c))
  IN \A a \in 1..3 :
       LET num == (2 * v[a] - mn[a] - mx[a])
           e   == ((((num * sc) \div 4) * 2048) \div box) * 8
       IN IF num = 0 THEN Close(w[a], 0, 2)
          ELSE IF box = 0 THEN FALSE
          ELSE Close(w[a], e, 14 + ((65536 * (sc + 4)) \div 4) \div box)

SameN(n, m) == n = m

EvPGeom(h, e) ==
  LET p == h[e.id]  q == e.p
      v == CASE e.e = "pscale" -> Rel(p, q, LAMBDA x, y: Close3(y, ScaleV(x, e.f, e.fd), 3),
                                      LAMBDA x, y: ScaleN(x, y, e.f), "scale")
             [] e.e = "protate" -> Rel(p, q, LAMBDA x, y: Close3(y, Rot(x, e.cs), RotTol(x, e.cs)),
                                       LAMBDA x, y: Close3(y, Rot(x, e.cs), RotTol(x, e.cs)), "rotate")
             [] e.e = "ptranslate" -> Rel(p, q, LAMBDA x, y: Close3(y, VecAdd(x, e.t), 2), SameN, "translate")
             [] e.e = "pflip" -> Rel(p, q, LAMBDA x, y: y = FlipV(x, e.s), LAMBDA x, y: y = FlipV(x, e.s), "flip")
             [] e.e = "porient" -> Rel(p, q, SameN, LAMBDA x, y: OrientN(x, y, e.ax), "orient_normal")
             [] e.e = "pnormalize" -> Rel(p, q, LAMBDA x, y: NormV(x, y, e.mn, e.mx, e.sc), SameN, "normalize")
  IN Put(h, e.id, q, IF e.err # "" THEN {e.e \o ".raised"} ELSE v \cup OthersSame(p, q))

EvPNew(h, e) == Put(h, e.id, e.p,
   IF e.err # "" THEN {"points.raised"}
   ELSE Chk(IsShape(e.p.pts, e.x.pts.sh) /\ e.p.pts.v = e.x.pts.v, "points.new")
        \cup Chk(SameVals(e.p.nrm, e.x.nrm) /\ SameVals(e.p.ft, e.x.ft), "points.new.attributes")
        \cup Chk(e.x.lb.k = e.p.lb.k /\ (IsT(e.x.lb) => Len(e.p.lb.sh) = 2 /\ e.p.lb.v =
                   (IF Len(e.x.lb.sh) = 2 THEN e.x.lb.v ELSE [i \in 1..NPts(e.p) |-> <<e.x.lb.v[i]>>])), "points.new.labels")
        \cup Chk(e.x.bid.k = e.p.bid.k /\ (IsT(e.x.bid) => Len(e.p.bid.sh) = 2 /\ e.p.bid.v =
                   (IF Len(e.x.bid.sh) = 2 THEN e.x.bid.v ELSE [i \in 1..NPts(e.p) |-> <<e.x.bid.v[i]>>])), "points.new.batch_id")
        \cup Chk(e.p.bs = e.x.bs, "points.new.batch_size"))

EvPBbox(h, e) ==
  LET p == h[e.id]  n == NPts(p)
      lo(a) == CHOOSE x \in { p.pts.v[i][a] : i \in 1..n } : \A i \in 1..n : x <= p.pts.v[i][a]
      hi(a) == CHOOSE x \in { p.pts.v[i][a] : i \in 1..n } : \A i \in 1..n : x >= p.pts.v[i][a]
  IN Keep(h, IF e.err # "" THEN {"bbox.raised"}
             ELSE IF ~(IsShape(e.mn, <<3>>) /\ IsShape(e.mx, <<3>>)) THEN {"bbox.shape"}
             ELSE Chk(e.mn.v = << lo(1), lo(2), lo(3) >> /\ e.mx.v = << hi(1), hi(2), hi(3) >>, "bbox"))

-----------------------------------------------------------------------------
(* membership in the open box (lo, hi) per axis: TRUE/FALSE when certain,     *)
(* otherwise unconstrained                                                    *)
InMust(v, lo, hi, m) == \A a \in 1..3 : v[a] > lo[a] + m /\ v[a] < hi[a] - m
OutMust(v, lo, hi, m) == \E a \in 1..3 : v[a] < lo[a] - m \/ v[a] > hi[a] + m
       \/ (m = 0 /\ (v[a] = lo[a] \/ v[a] = hi[a]))
MaskOk(p, mask, lo, hi, m) ==
  IsShape(mask, <<NPts(p)>>) /\
  \A i \in 1..NPts(p) : /\ InMust(p.pts.v[i], lo, hi, m) => mask.v[i] = 1
                        /\ OutMust(p.pts.v[i], lo, hi, m) => mask.v[i] = 0
Kept(mask) == SelectSeq([i \in 1..Len(mask.v) |-> i], LAMBDA i: mask.v[i] = 1)

\* every attribute restricted to the rows idx
SliceOk(p, q, idx, nm) ==
  Chk(q.pts = RowsOfT(p.pts, idx), nm \o ".points") \cup Chk(q.nrm = RowsOfT(p.nrm, idx), nm \o ".normals")
  \cup Chk(q.ft = RowsOfT(p.ft, idx), nm \o ".features") \cup Chk(q.lb = RowsOfT(p.lb, idx), nm \o ".labels")
  \cup Chk(q.bid = RowsOfT(p.bid, idx), nm \o ".batch_id") \cup Chk(q.bs = p.bs, nm \o ".batch_size")
  \* sizes that no longer hold must not survive
  \cup Chk(IsT(q.npt) => /\ Sum(q.npt.v) = Len(idx)
                         /\ (IsT(q.bid) => q.npt.v = [b \in 1..q.bs |-> Cardinality({ i \in 1..Len(idx) : q.bid.v[i][1] = b - 1 })]),
           nm \o ".batch_npt")

EvPClip(h, e) ==
  LET p == h[e.id]
      m == IF e.bex /\ p.ex THEN 0 ELSE 2
  IN Put(h, e.id, e.p,
       IF e.err # "" THEN {"clip.raised"}
       ELSE IF ~MaskOk(p, e.mask, e.lo, e.hi, m) THEN {"clip.mask"}
       ELSE SliceOk(p, e.p, Kept(e.mask), "clip"))
EvPInbox(h, e) ==
  LET p == h[e.id]
      m == IF e.bex /\ p.ex THEN 0 ELSE 2
  IN Keep(h, IF e.err # "" THEN {"inbox_mask.raised"}
             ELSE Chk(MaskOk(p, e.mask, e.lo, e.hi, m), "inbox_mask"))
EvPSlice(h, e) ==
  Put(h, e.new, e.p, IF e.err # "" THEN {"slice.raised"} ELSE SliceOk(h[e.id], e.p, e.idx, "slice"))

EvPMerge(h, e) ==
  LET ps == [i \in 1..Len(e.ids) |-> h[e.ids[i]]]
      B  == Len(ps)
      cat(f(_)) == IF IsT(f(ps[1])) THEN CatT([i \in 1..B |-> f(ps[i])]) ELSE NoneT
      bid == Concat([i \in 1..B |-> [j \in 1..NPts(ps[i]) |-> <<i - 1>>]])
      n  == Len(bid)
  IN Put(h, e.id, e.p,
       IF e.err # "" THEN {"merge_points.raised"}
       ELSE Chk(e.p.pts = cat(LAMBDA p: p.pts), "merge_points.points")
            \cup Chk(e.p.nrm = cat(LAMBDA p: p.nrm), "merge_points.normals")
            \cup Chk(e.p.ft = cat(LAMBDA p: p.ft), "merge_points.features")
            \cup Chk(e.p.lb = cat(LAMBDA p: p.lb), "merge_points.labels")
            \cup (IF e.upd
                  THEN Chk(e.p.bs = B, "merge_points.batch_size")
                       \cup Chk(IsShape(e.p.npt, <<B>>) /\ \A i \in 1..B : e.p.npt.v[i] = NPts(ps[i]), "merge_points.batch_npt")
                       \cup Chk(IsShape(e.p.bid, <<n, 1>>) /\ e.p.bid.v = bid, "merge_points.batch_id")
                  ELSE {}))

\* save: e.want = set of requested attribute letters, as a sequence;
\* e.file = list of <<name, tensor>> found in the file
AttrOf(p, c) == CASE c = "P" -> p.pts [] c = "N" -> p.nrm [] c = "F" -> p.ft [] c = "L" -> p.lb [] c = "B" -> p.bid
NameOf(c) == CASE c = "P" -> "points" [] c = "N" -> "normals" [] c = "F" -> "features" [] c = "L" -> "labels" [] c = "B" -> "batch_id"
UnitOf(c) == CASE c = "P" -> PS [] c = "N" -> 4096 [] OTHER -> 1
EvPSave(h, e) ==
  LET p == h[e.id]
      want == SelectSeq(e.want, LAMBDA c: IsT(AttrOf(p, c)))
      names == { NameOf(want[i]) : i \in 1..Len(want) }
      got == { e.file[i][1] : i \in 1..Len(e.file) }
      val(nm) == e.file[CHOOSE i \in 1..Len(e.file) : e.file[i][1] = nm][2]
      \* xyz: the columns side by side, in the requested order, in 1/1000000
      Mil(v, u) == IF u = 1 THEN v * 1000000
                   ELSE (v \div u) * 1000000 + ((v % u) * 15625) \div (u \div 64)
      \* the projection of the attribute itself is rounded to its unit
      STol(k) == CASE want[k] = "P" -> (IF p.ex THEN 1 ELSE 33) [] want[k] = "N" -> 125 [] OTHER -> 1
      n == NPts(p)
      cols(i) == Concat([k \in 1..Len(want) |->
                   [a \in 1..AttrOf(p, want[k]).sh[2] |->
                      << Mil(AttrOf(p, want[k]).v[i][a], UnitOf(want[k])), STol(k) >>]])
  IN Keep(h,
       IF e.err # "" THEN {"save.raised"}
       ELSE IF e.fmt = "npz"
       THEN IF got # names THEN {"save.attributes"}
            ELSE Chk(\A k \in 1..Len(want) : SameVals(val(NameOf(want[k])), AttrOf(p, want[k])), "save.values")
       ELSE Chk(IsT(e.xyz) /\ e.xyz.sh[1] = n /\
                \A i \in 1..n : LET c == cols(i) IN Len(e.xyz.v[i]) = Len(c) /\
                   \A k \in 1..Len(c) : Close(e.xyz.v[i][k], c[k][1], c[k][2]), "save.xyz"))

\* the heap at the end of a generated session, against the state the session
\* machine predicts (coordinates in 1/256, normals in axis directions; features
\* and labels follow from the tags); quarter turns are exact up to float
\* rounding
PStateOk(w, g, e) ==
  LET n == Len(w.rs)
      R(nm, c) == Chk(c, "session." \o nm)
  IN IF ~IsShape(g.pts, <<n, 3>>) THEN {"session.points.shape"}
     ELSE R("points", \A k \in 1..n : Close3(g.pts.v[k], [a \in 1..3 |-> 64 * w.rs[k].p[a]], 2))
          \cup R("normals", IF ~e.hn THEN g.nrm.k = "none"
                            ELSE IsShape(g.nrm, <<n, 3>>) /\ \A k \in 1..n : Close3(g.nrm.v[k], [a \in 1..3 |-> 4096 * w.rs[k].n[a]], 2))
          \cup R("features", IF ~e.hf THEN g.ft.k = "none"
                             ELSE IsShape(g.ft, <<n, 2>>) /\ \A k \in 1..n : g.ft.v[k] = << w.rs[k].t, -(w.rs[k].t) >>)
          \cup R("labels", IF ~e.hl THEN g.lb.k = "none"
                           ELSE IsShape(g.lb, <<n, 1>>) /\ \A k \in 1..n : g.lb.v[k] = << w.rs[k].t >>)
          \cup R("batch_id", IF ~w.hb THEN g.bid.k = "none"
                             ELSE IsShape(g.bid, <<n, 1>>) /\ \A k \in 1..n : g.bid.v[k] = << w.rs[k].b >>)
          \cup R("batch_size", g.bs = w.bs)
          \cup R("batch_npt", w.np # <<>> => IsT(g.npt) /\ g.npt.v = w.np)
EvPState(h, e) == Keep(h, IF Len(e.got) # Len(e.want) THEN {"session.clouds"}
                          ELSE UNION { PStateOk(e.want[k], e.got[k], e) : k \in 1..Len(e.got) })

\* a merge of many points: sizes, runs of equal batch ids, and some rows
EvPBig(h, e) ==
  LET B == Len(e.ns)
  IN Keep(h, IF e.err # "" THEN {"merge_points.raised"}
             ELSE Chk(e.bs = B, "merge_points.batch_size")
                  \cup Chk(IsShape(e.npt, <<B>>) /\ e.npt.v = e.ns, "merge_points.batch_npt")
                  \cup Chk(e.runs = << [i \in 1..B |-> i - 1], e.ns >>, "merge_points.batch_id")
                  \cup Chk(e.rows = [j \in 1..Len(e.at) |-> << e.at[j], e.at[j], e.at[j] >>], "merge_points.points"))

-----------------------------------------------------------------------------
(* the data pipeline.  e.x: the sample's cloud; e.p: the returned cloud;      *)
(* e.q: the returned cloud in 1/256 of a finest cell (from the corner of the  *)
(* grid); e.mask: inbox_mask; e.snap/head/sig: the returned octree.           *)
(* e.dist: distorted with parameters e.s (flip), e.cs, e.t, e.f (1/4096);     *)
(* e.ax: orient axis or 0                                                     *)
QU == 256
Scale4096(v, f) == [a \in 1..3 |-> ((v[a] * (f[a] \div 4)) \div 1024)]
TfPt(v, e) == IF ~e.dist THEN v
              ELSE Scale4096(VecAdd(Rot(FlipV(v, e.s), e.cs), e.t), e.f)
TfTol(v, e) == IF ~e.dist THEN 0 ELSE 30 + (Abs(v[1]) + Abs(v[2]) + Abs(v[3])) \div 256
\* normals before orientation, up to rounding
TfNok(n, m, e) ==
  LET r == IF e.dist THEN Rot(FlipV(n, e.s), e.cs) ELSE n
      tol == IF e.dist THEN RotTol(n, e.cs) + 4 ELSE 0
      uni == ~e.dist \/ (e.f[1] = e.f[2] /\ e.f[2] = e.f[3])
      f8 == [a \in 1..3 |-> e.f[a] \div 64]         \* 1/64
      q == IF uni THEN m ELSE [a \in 1..3 |-> m[a] \div 64]
      par(s, t) == \* q parallel to s within tolerance, same direction
        LET T == t IN /\ Close(q[1]*s[2], q[2]*s[1], T) /\ Close(q[2]*s[3], q[3]*s[2], T)
                      /\ Close(q[1]*s[3], q[3]*s[1], T)
      near(u, x) == Close3(u, x, tol)
      \* inverse-scaled direction, small fixed point: n/f ~ r[a]*f[b]*f[c]
      inv(u) == << (u[1] \div 64) * f8[2] * f8[3], (u[2] \div 64) * f8[1] * f8[3], (u[3] \div 64) * f8[1] * f8[2] >>
      \* components: |u|<=3*64, f8 ~ 64: inv ~ 64*3*4096
      okDir(u) == IF u = <<0,0,0>> THEN Close3(m, <<0,0,0>>, 0) \/ tol > 0
                  ELSE IF uni THEN near(u, m)
                  ELSE par(inv(u), 64 * 4096 * 24) /\ q[1]*inv(u)[1] + q[2]*inv(u)[2] + q[3]*inv(u)[3] > -(64 * 4096 * 24)
      neg(u) == [a \in 1..3 |-> -u[a]]
  IN IF e.ax = 0 THEN okDir(r)
     ELSE IF e.ax < 4 THEN m[e.ax] >= 0 /\ (okDir(r) \/ okDir(neg(r)))
     ELSE (\A a \in 1..3 : m[a] >= 0) /\
          (IF uni THEN Close3(m, [a \in 1..3 |-> Abs(r[a])], tol)
           ELSE \E s \in {1, -1} \X {1, -1} \X {1, -1} : okDir([a \in 1..3 |-> s[a] * r[a]]))

\* the clip of the pipeline: strictly inside +-(1 - 0.01)
TfLo == << -16220, -16220, -16220 >>
TfHi == << 16220, 16220, 16220 >>
EvTf(h, e) ==
  LET x == e.x  p == e.p
      n == NPts(x)
      must(i) == InMust(TfPt(x.pts.v[i], e), TfLo, TfHi, 2 + TfTol(x.pts.v[i], e))
      mustnt(i) == OutMust(TfPt(x.pts.v[i], e), TfLo, TfHi, 2 + TfTol(x.pts.v[i], e))
      idx == Kept(e.mask)
      m == Len(idx)
      maskv == IF ~IsShape(e.mask, <<n>>) THEN {"transform.inbox_mask.shape"}
               ELSE Chk(\A i \in 1..n : (must(i) => e.mask.v[i] = 1) /\ (mustnt(i) => e.mask.v[i] = 0),
                        "transform.inbox_mask")
      shape == Chk(IsShape(p.pts, <<m, 3>>) /\ p.nrm.k = x.nrm.k /\ (IsT(p.nrm) => p.nrm.sh = <<m, 3>>), "transform.shape")
      rows == Chk(\A i \in 1..m : LET v == x.pts.v[idx[i]] IN Close3(p.pts.v[i], TfPt(v, e), TfTol(v, e)), "transform.points")
              \cup (IF IsT(p.nrm) THEN Chk(\A i \in 1..m : TfNok(x.nrm.v[idx[i]], p.nrm.v[i], e), "transform.normals") ELSE {})
              \cup Chk(SameVals(p.ft, RowsOfT(x.ft, idx)) /\ SameVals(p.lb, RowsOfT(x.lb, idx)), "transform.attributes")
      \* octree against the returned points
      far == 2^e.depth * QU
      vox(u) == Min2(u \div QU, 2^e.depth - 1)
      cell(i) == << 0, vox(e.q.v[i][1]), vox(e.q.v[i][2]), vox(e.q.v[i][3]) >>
      amb == ~e.qex /\ \E i \in 1..m : \E a \in 1..3 : LET r == e.q.v[i][a] % QU IN r < 2 \/ r > QU - 2
      o1 == BuildOctree({ cell(i) : i \in 1..m }, e.depth, e.full, 1)
      li == [i \in 1..m |-> FindNe(o1, e.depth, cell(i))]
      nl == NumNe(o1, e.depth)
      grp(k) == SelectSeq([i \in 1..m |-> i], LAMBDA i: li[i] = k - 1)
      mean(k, a) == LET g == grp(k) IN Sum([j \in 1..Len(g) |-> (e.q.v[g[j]][a] - QU * cell(g[j])[a + 1])])
      \* (recorded fraction in 1/4096; sum of offsets in 1/256)
      prel(k, a) == (e.sig.ph.v[k][a] - Rows(o1, e.depth, TRUE)[k][a + 1]) * Scale + e.sig.pf.v[k][a]
      nsum(k, a) == LET g == grp(k) IN Sum([j \in 1..Len(g) |-> (p.nrm.v[g[j]][a] \div 16)])
      ndir(k) == LET q == [a \in 1..3 |-> (e.sig.nm.v[k][a] \div 16)]
                     s == [a \in 1..3 |-> nsum(k, a)]
                     c == Len(grp(k))
                     tol == 2 * (Abs(s[1]) + Abs(s[2]) + Abs(s[3])) + 1024 * c
                 IN /\ Close(q[1]*s[2], q[2]*s[1], tol) /\ Close(q[2]*s[3], q[3]*s[2], tol)
                    /\ Close(q[1]*s[3], q[3]*s[1], tol)
                    /\ q[1]*s[1] + q[2]*s[2] + q[3]*s[3] > -tol
      sigv == (IF ~(IsShape(e.sig.ph, <<nl, 3>>) /\ IsShape(e.sig.pf, <<nl, 3>>)) THEN {"transform.octree.points.shape"}
               ELSE Chk(\A k \in 1..nl : \A a \in 1..3 :
                          Near(prel(k, a), mean(k, a), QU * Len(grp(k)), 12 + PtTol(e.depth)), "transform.octree.points"))
              \cup (IF ~IsT(p.nrm) THEN Chk(~IsT(e.sig.nm), "transform.octree.normals")
                    ELSE IF ~IsShape(e.sig.nm, <<nl, 3>>) THEN {"transform.octree.normals.shape"}
                    ELSE Chk(\A k \in 1..nl : ndir(k), "transform.octree.normals"))
              \cup Chk(e.sig.ft.k = p.ft.k, "transform.octree.features")
      o == [o1 EXCEPT !.sig = [has |-> FALSE, raw |-> e.sig, amb |-> amb]]
      early == IF e.err # "" THEN {"transform.raised"}
               ELSE maskv \cup (IF maskv = {} THEN shape ELSE {})
  IN IF early # {} THEN Keep(h, early)
     ELSE [h |-> (e.id :> o) @@ ((e.pid :> p) @@ h),
           v |-> rows \cup Chk(e.keys = e.xkeys, "transform.sample_keys") \cup Chk(e.oth = e.xoth, "transform.other_entries")
                 \cup HeadVerdict(o, e.head)
                 \cup (IF amb THEN {} ELSE SnapVerdict(o, e.snap) \cup sigv)]

\* sampled distortion parameters; units: angles and intervals in whole
\* degrees, e.ang[i]: angle / interval in 1/4096; scale, jitter in 1/16384
EvRnd(h, e) ==
  Keep(h,
    IF e.err # "" THEN {"rnd_parameters.raised"}
    ELSE IF ~(IsShape(e.ang, <<3>>) /\ IsShape(e.scl, <<3>>) /\ IsShape(e.jit, <<3>>)) THEN {"rnd_parameters.shape"}
    ELSE Chk(\A a \in 1..3 : LET r == (e.ang.v[a] + 2048) \div 4096
                             IN Close(e.ang.v[a], r * 4096, 8) /\ Abs(r) <= e.angle[a] \div e.interval[a], "rnd.angle")
         \cup Chk(\A a \in 1..3 : Close(e.scl.v[a], PS, e.sc + 1), "rnd.scale")
         \cup Chk(e.uni => e.scl.v[1] = e.scl.v[2] /\ e.scl.v[2] = e.scl.v[3], "rnd.uniform")
         \cup Chk(\A a \in 1..3 : Abs(e.jit.v[a]) <= e.jm + 1, "rnd.jitter")
         \* an axis with flip probability 0 is never flipped, with 1 always
         \cup Chk(\A a \in 1..3 : (e.fp[a] = 0 => ~e.fl[a]) /\ (e.fp[a] = 2 => e.fl[a]), "rnd.flip")
         \cup Chk(e.known, "rnd.flip.axes"))

\* over many draws every configured value must be reachable (ranges are not
\* collapsed): e.seen[a] = set of angle steps seen on axis a
EvRndMany(h, e) ==
  Keep(h,
    Chk(\A a \in 1..3 : LET k == e.angle[a] \div e.interval[a]
                        IN { e.seen[a][i] : i \in 1..Len(e.seen[a]) } = (-k)..k, "rnd.angle.support")
    \cup Chk(e.sc > 0 => e.sspan[1] < PS - (e.sc \div 2) /\ e.sspan[2] > PS + (e.sc \div 2), "rnd.scale.support")
    \cup Chk(e.jm > 0 => e.jspan[1] < -(e.jm \div 2) /\ e.jspan[2] > e.jm \div 2, "rnd.jitter.support")
    \cup Chk((e.sc > 0 /\ ~e.uni) => e.ani, "rnd.scale.axes")
    \cup Chk(\A a \in 1..3 : e.fp[a] = 1 => e.fany[a] /\ e.fnone[a], "rnd.flip.support"))

\* collate: e.ids octrees, e.pids clouds, merged octree e.id
SigCat(rs, g) ==     \* recorded signals are concatenated
  LET pick(f(_)) == IF \E i \in 1..Len(rs) : ~IsT(f(rs[i])) THEN NoneT ELSE CatT([i \in 1..Len(rs) |-> f(rs[i])])
  IN Chk(SameVals(g.ph, pick(LAMBDA r: r.ph)) /\ SameVals(g.pf, pick(LAMBDA r: r.pf)), "collate.octree.points")
     \cup Chk(SameVals(g.nm, pick(LAMBDA r: r.nm)), "collate.octree.normals")
     \cup Chk(SameVals(g.ft, pick(LAMBDA r: r.ft)), "collate.octree.features")
EvCollate(h, e) ==
  LET os == [i \in 1..Len(e.ids) |-> h[e.ids[i]]]
      B  == Len(os)
      o  == ConstructAllNeigh([Merge(os) EXCEPT !.sig = NoSig])
      ps == [i \in 1..B |-> h[e.pids[i]]]
      amb == \E i \in 1..B : os[i].sig.amb
  IN Put(h, e.id, o,
       IF e.err # "" THEN {"collate.raised"}
       ELSE HeadVerdict(o, e.head)
            \cup (IF amb THEN {} ELSE SnapVerdict(o, e.snap))
            \cup SigCat([i \in 1..B |-> os[i].sig.raw], e.sig)
            \cup Chk(amb \/ (Len(e.nb) = o.depth + 1 /\
                     \A d \in 0..o.depth : o.nb[d + 1] # <<>> =>
                       IsShape(e.nb[d + 1], <<Num(o, d), 27>>) /\ e.nb[d + 1].v = o.nb[d + 1]), "collate.neighs")
            \cup Chk(e.keys = e.xkeys, "collate.keys")
            \cup Chk(e.oth = e.xoth, "collate.other_entries")
            \cup Chk(\A i \in 1..Len(e.same) : e.same[i][1] = e.same[i][2], "collate.second_octree")
            \cup (IF e.hl THEN Chk(IsT(e.lab) /\ e.lab.sh = <<B>> /\ e.lab.v = e.xlab, "collate.label") ELSE {})
            \cup (IF e.mp
                  THEN LET q == e.p
                       IN Chk(SameVals(q.pts, CatT([i \in 1..B |-> ps[i].pts])), "collate.points")
                          \cup Chk(~IsT(ps[1].nrm) \/ SameVals(q.nrm, CatT([i \in 1..B |-> ps[i].nrm])), "collate.points.normals")
                          \cup Chk(q.bs = B /\ IsT(q.npt) /\ q.npt.v = [i \in 1..B |-> NPts(ps[i])], "collate.points.counts")
                          \cup Chk(IsT(q.bid) /\ q.bid.v = Concat([i \in 1..B |-> [j \in 1..NPts(ps[i]) |-> <<i - 1>>]]), "collate.points.batch_id")
                  ELSE Chk(Len(e.plist) = B /\ \A i \in 1..B : e.plist[i].pts = ps[i].pts, "collate.points.list")))

-----------------------------------------------------------------------------
(* moves *)
DevsOk(e) == Chk(\A i \in 1..Len(e.devs) : e.devs[i] = e.dev, "move.device")
EvMove(h, e) ==
  LET o == h[e.id]
  IN Put(h, e.new, o,
       IF e.err # "" THEN {"move.raised"}
       ELSE DevsOk(e) \cup HeadVerdict(o, e.head)
            \cup Chk(e.nn = [d \in 1..(o.depth + 1) |-> << Num(o, d - 1), NumNe(o, d - 1) >>], "move.counts")
            \cup Chk(e.shared = 0, "move.shares_storage")
            \cup Chk(e.bn = e.bn0 /\ e.bne = e.bne0, "move.batch_counts")
            \cup (IF ~e.vals
                  THEN Chk(e.shp = e.shp0, "move.shapes")
                  ELSE SnapVerdict(o, e.snap)
                       \cup (IF o.sig.has THEN SigVerdict(o, e.sig) ELSE {})
                       \cup Chk(e.sig = e.sig0, "move.signals")
                       \cup Chk(Len(e.nb) = o.depth + 1 /\ \A d \in 0..o.depth :
                              o.nb[d + 1] # <<>> => IsShape(e.nb[d + 1], <<Num(o, d), 27>>)
                                                    /\ e.nb[d + 1].v = o.nb[d + 1], "move.neighs")
                       \cup Chk(e.shp = e.shp0, "move.shapes")))
EvPMove(h, e) ==
  LET p == h[e.id]
  IN Put(h, e.new, p,
       IF e.err # "" THEN {"points.move.raised"}
       ELSE DevsOk(e) \cup Chk(e.shared = 0, "points.move.shares_storage")
            \cup Chk(e.bs = p.bs, "points.move.batch_size") \cup Chk(SameVals(e.npt, p.npt), "points.move.batch_npt")
            \cup Chk(e.shp = e.shp0, "points.move.shapes")
            \cup (IF e.vals THEN Chk(SameVals(e.p.pts, p.pts) /\ SameVals(e.p.nrm, p.nrm) /\ SameVals(e.p.ft, p.ft)
                                     /\ SameVals(e.p.lb, p.lb) /\ SameVals(e.p.bid, p.bid), "points.move.values")
                  ELSE {}))

HandlePoints(h, e) ==
  CASE e.e = "pnew" -> EvPNew(h, e)
    [] e.e \in {"pscale", "protate", "ptranslate", "pflip", "porient", "pnormalize"} -> EvPGeom(h, e)
    [] e.e = "pbbox" -> EvPBbox(h, e)
    [] e.e = "pclip" -> EvPClip(h, e)
    [] e.e = "pinbox" -> EvPInbox(h, e)
    [] e.e = "pslice" -> EvPSlice(h, e)
    [] e.e = "pmerge" -> EvPMerge(h, e)
    [] e.e = "pbig" -> EvPBig(h, e)
    [] e.e = "psave" -> EvPSave(h, e)
    [] e.e = "tf" -> EvTf(h, e)
    [] e.e = "rnd" -> EvRnd(h, e)
    [] e.e = "rndmany" -> EvRndMany(h, e)
    [] e.e = "pstate" -> EvPState(h, e)
    [] e.e = "collate" -> EvCollate(h, e)
    [] e.e = "move" -> EvMove(h, e)
    [] e.e = "pmove" -> EvPMove(h, e)
    [] OTHER -> Keep(h, {"unknown_event"})
=============================================================================
