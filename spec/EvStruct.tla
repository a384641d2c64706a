------------------------------ MODULE EvStruct ------------------------------
(* Structural events: key codec, build, init, grow, split, merge, neighbour   *)
(* tables, searches, layer queries, signals, export.                          *)
(* A handler takes the abstract heap and one recorded event and returns       *)
(* [h |-> next heap, v |-> verdict].                                          *)
EXTENDS OctreeModel, Common, TLC

Keep(h, v) == [h |-> h, v |-> v]
Put(h, id, o, v) == [h |-> (id :> o) @@ h, v |-> v]

-----------------------------------------------------------------------------
(* C01 *)
EvKey(h, e) ==
  LET n == Len(e.c)
      \* e.c[i] = <<b, x, y, z>>; e.bm = "none" means the batch was omitted
      cell(i) == IF e.bm = "none" THEN << 0, e.c[i][2], e.c[i][3], e.c[i][4] >> ELSE e.c[i]
  IN Keep(h, IF Len(e.keys) # n \/ Len(e.dec) # n THEN {"key.len"}
             ELSE Chk(\A i \in 1..n : e.keys[i] = KeyOf(cell(i)), "key.encode")
                  \cup Chk(\A i \in 1..n : e.dec[i] = cell(i), "key.decode"))

-----------------------------------------------------------------------------
(* a recorded layer against the abstract one *)
LayerVerdict(o, s) ==
  LET ly == Layer(o, s.d)
      n  == Len(ly.n)
  IN IF ~ly.has THEN Chk(~s.has, "layer.unexpected")
     ELSE IF ~s.has THEN {"layer.missing"}
     ELSE Chk(s.nn = n, "layer.count") \cup Chk(s.nne = Len(ly.p), "layer.count_nonempty")
          \cup (IF Len(s.keys) # n THEN {"layer.keys.len"}
                ELSE Chk(\A i \in 1..n : s.keys[i] = KeyOf(ly.n[i]), "layer.keys"))
          \cup (IF Len(s.ch) # n THEN {"layer.children.len"}
                ELSE Chk(s.ch = ly.rk, "layer.children"))
SnapVerdict(o, snap) ==
  UNION { LayerVerdict(o, snap[i]) : i \in 1..Len(snap) }
HeadVerdict(o, hd) ==
  Chk(hd.depth = o.depth /\ hd.full = o.full /\ hd.bs = o.bs, "octree.head")

-----------------------------------------------------------------------------
(* build *)
Unit == 4      \* points are given in quarters of a finest cell
\* e.up = 1: the recorded points lie almost a quarter (1 - 2^-12 of it) higher: the same cell, but
\* only in double precision

Voxel(u, depth) == Min2(u \div Unit, 2^depth - 1)
PtCell(p, depth) == << p[1], Voxel(p[2], depth), Voxel(p[3], depth), Voxel(p[4], depth) >>

\* per finest non-empty cell: number of points, sum of offsets from the cell
\* corner, sum of normals, sum of features
SigOf(o, e, li) ==
  LET nl == NumNe(o, o.depth)
      np == Len(e.pts)
      hn == Len(e.nrm) > 0 \/ e.hn
      hf == e.fc > 0
      rel(p) == LET c == PtCell(e.pts[p], o.depth)
                IN << (e.pts[p][2] - Unit * c[2]) + e.up, (e.pts[p][3] - Unit * c[3]) + e.up,
                      (e.pts[p][4] - Unit * c[4]) + e.up >>
      step(acc, p) ==
        LET i == li[p] + 1
        IN [acc EXCEPT !.cnt[i] = @ + 1, !.sp[i] = Vec3(@, rel(p)),
                       !.sn[i] = IF hn THEN Vec3(@, e.nrm[p]) ELSE @,
                       !.sf[i] = IF hf THEN VecAdd(@, e.feat[p]) ELSE @]
  IN FoldLeft(step,
       [has |-> TRUE, hn |-> hn, hf |-> hf, fc |-> e.fc,
        cnt |-> [i \in 1..nl |-> 0], sp |-> [i \in 1..nl |-> <<0,0,0>>],
        sn |-> [i \in 1..nl |-> <<0,0,0>>], sf |-> [i \in 1..nl |-> ZeroVec(e.fc)]],
       [p \in 1..np |-> p])

PtTol(depth) == IF depth <= 12 THEN 3 ELSE 2^(depth - 11)

\* q: fixed-point unit vector, s: exact sum of normals
UnitVecOk(q, s) ==
  IF s = <<0,0,0>> THEN q = <<0,0,0>>
  ELSE LET m == Abs(s[1]) + Abs(s[2]) + Abs(s[3])
           bounded == \A i \in 1..3 : Abs(q[i]) <= Scale + 8
       IN /\ bounded
          /\ Close(q[1]*s[2], q[2]*s[1], 2*m) /\ Close(q[2]*s[3], q[3]*s[2], 2*m)
          /\ Close(q[1]*s[3], q[3]*s[1], 2*m)
          /\ q[1]*s[1] + q[2]*s[2] + q[3]*s[3] > 0
          /\ Close(q[1]*q[1] + q[2]*q[2] + q[3]*q[3], Scale * Scale, 8 * Scale)

\* recorded finest-layer signals
SigVerdict(o, g) ==
  LET nl == NumNe(o, o.depth)
      cells == Rows(o, o.depth, TRUE)
      s  == o.sig
      rel(i, a) == (g.ph.v[i][a] - cells[i][a + 1]) * Scale + g.pf.v[i][a]
      inr(i, a) == Abs(g.ph.v[i][a]) <= 131072
  IN (IF ~(IsShape(g.ph, <<nl, 3>>) /\ IsShape(g.pf, <<nl, 3>>)) THEN {"sig.points.shape"}
      ELSE Chk(\A i \in 1..nl : \A a \in 1..3 :
                 inr(i, a) /\ Near(rel(i, a), s.sp[i][a], Unit * s.cnt[i], PtTol(o.depth)),
               "sig.points"))
     \cup
     (IF ~s.hn THEN Chk(~IsT(g.nm), "sig.normals.unexpected")
      ELSE IF ~IsShape(g.nm, <<nl, 3>>) THEN {"sig.normals.shape"}
      ELSE Chk(\A i \in 1..nl : UnitVecOk(g.nm.v[i], s.sn[i]), "sig.normals"))
     \cup
     (IF ~s.hf THEN Chk(~IsT(g.ft), "sig.features.unexpected")
      ELSE IF ~IsShape(g.ft, <<nl, s.fc>>) THEN {"sig.features.shape"}
      ELSE Chk(\A i \in 1..nl : \A a \in 1..s.fc : Near(g.ft.v[i][a], s.sf[i][a], s.cnt[i], 3),
               "sig.features"))

EvBuild(h, e) ==
  LET np    == Len(e.pts)
      pc    == [p \in 1..np |-> PtCell(e.pts[p], e.depth)]
      o1    == BuildOctree({ pc[p] : p \in 1..np }, e.depth, e.full, e.bs)
      li    == [p \in 1..np |-> FindNe(o1, e.depth, pc[p])]
      o     == [o1 EXCEPT !.sig = SigOf(o1, e, li)]
  IN Put(h, e.id, o,
       IF e.err # "" THEN {"build.raised"}
       ELSE HeadVerdict(o, e.head) \cup SnapVerdict(o, e.snap)
            \cup Chk(IsT(e.idx) /\ e.idx.v = li, "build.index")
            \cup SigVerdict(o, e.sig))

-----------------------------------------------------------------------------
(* construction by growing *)
EvInit(h, e) ==
  LET o0 == InitOctree(e.depth, e.full, e.bs)
      \* init_octree constructs the neighbour tables of the full layers it grows
      o  == [o0 EXCEPT !.nb = [d \in 1..(e.depth + 1) |->
               IF d - 1 <= e.full THEN NeighTable(o0, d - 1) ELSE <<>>]]
  IN Put(h, e.id, o, IF e.err # "" THEN {"init.raised"}
                     ELSE HeadVerdict(o, e.head) \cup SnapVerdict(o, e.snap))

EvNew(h, e) ==
  LET o == NewOctree(e.depth, e.full, e.bs)
  IN Put(h, e.id, o, IF e.err # "" THEN {"new.raised"} ELSE HeadVerdict(o, e.head))

EvGrowFull(h, e) ==
  LET o0 == GrowFull(h[e.id], e.d)
      o  == IF e.un THEN ConstructNeigh(o0, e.d) ELSE o0
  IN Put(h, e.id, o, IF e.err # "" THEN {"growfull.raised"} ELSE SnapVerdict(o, e.snap))

EvSplit(h, e) ==
  LET o == Split(h[e.id], e.d, e.flags)
  IN Put(h, e.id, o, IF e.err # "" THEN {"split.raised"} ELSE SnapVerdict(o, e.snap))

EvGrow(h, e) ==
  LET o0 == Grow(h[e.id], e.d)
      o  == IF e.un THEN ConstructNeigh(o0, e.d) ELSE o0
  IN Put(h, e.id, o, IF e.err # "" THEN {"grow.raised"} ELSE SnapVerdict(o, e.snap))

-----------------------------------------------------------------------------
(* merge *)
MergeSig(os) ==
  IF \A i \in 1..Len(os) : os[i].sig.has
  THEN [has |-> TRUE, hn |-> os[1].sig.hn, hf |-> os[1].sig.hf, fc |-> os[1].sig.fc,
        cnt |-> Concat([i \in 1..Len(os) |-> os[i].sig.cnt]),
        sp  |-> Concat([i \in 1..Len(os) |-> os[i].sig.sp]),
        sn  |-> Concat([i \in 1..Len(os) |-> os[i].sig.sn]),
        sf  |-> Concat([i \in 1..Len(os) |-> os[i].sig.sf])]
  ELSE NoSig

EvMerge(h, e) ==
  LET os == [i \in 1..Len(e.ids) |-> h[e.ids[i]]]
      o  == [Merge(os) EXCEPT !.sig = MergeSig(os)]
      D  == o.depth
      B  == Len(os)
  IN Put(h, e.id, o,
       IF e.err # "" THEN {"merge.raised"}
       ELSE HeadVerdict(o, e.head) \cup SnapVerdict(o, e.snap)
            \cup Chk(IsShape(e.bn, <<D + 1, B>>) /\ IsShape(e.bne, <<D + 1, B>>)
                     /\ \A d \in 0..D : \A i \in 1..B :
                          /\ e.bn.v[d + 1][i] = Num(os[i], d)
                          /\ e.bne.v[d + 1][i] = NumNe(os[i], d), "merge.batch_counts")
            \cup (IF o.sig.has THEN SigVerdict(o, e.sig) ELSE {}))

\* octrees of different depth or full depth cannot be merged
EvRefuse(h, e) ==
  LET os == [i \in 1..Len(e.ids) |-> h[e.ids[i]]]
      same == \A i \in 1..Len(os) : os[i].depth = os[1].depth /\ os[i].full = os[1].full
  IN Keep(h, Chk(e.refused <=> ~same, "merge.refused"))

-----------------------------------------------------------------------------
(* neighbour tables *)
EvConstructNeigh(h, e) ==
  Put(h, e.id, ConstructNeigh(h[e.id], e.d), Chk(e.err = "", "construct_neigh.raised"))
EvConstructAll(h, e) ==
  Put(h, e.id, ConstructAllNeigh(h[e.id]), Chk(e.err = "", "construct_all_neigh.raised"))

EvNeigh(h, e) ==
  LET o == h[e.id]
      x == GetNeigh(o, e.d, e.kernel, e.stride, e.ne)
  IN Keep(h, IF e.err # "" THEN {"neigh.raised"}
             ELSE IF ~IsShape(e.out, <<Len(x), Len(KernelOffsets(e.kernel))>>)
                  THEN {"neigh.shape"}
             ELSE Chk(\A i \in 1..Len(x) : e.out.v[i] = x[i], "neigh.table"))

\* some rows of a table too large to be recorded whole
EvNeighRows(h, e) ==
  LET o == h[e.id]
      n == Num(o, e.d)
      row(i) == [k \in 1..27 |-> Find(o, e.d, Shift(o.L[e.d + 1].n[i], k - 1))]
  IN Keep(h, IF e.n # n THEN {"neigh.count"}
             ELSE IF ~IsShape(e.out, <<Len(e.at), 27>>) THEN {"neigh.shape"}
             ELSE Chk(\A j \in 1..Len(e.at) : e.out.v[j] = row(e.at[j] + 1), "neigh.table"))

-----------------------------------------------------------------------------
(* searches; e.q[i] = <<b, x, y, z>> in-range coordinates of the queried cell *)
EvSearch(h, e) ==
  LET o == h[e.id]
  IN Keep(h, IF e.err # "" THEN {"search.raised"}
             ELSE IF ~IsShape(e.out, <<Len(e.q)>>) THEN {"search.shape"}
             ELSE Chk(\A i \in 1..Len(e.q) :
                        e.out.v[i] = FindIn(o, e.d, e.q[i], e.ne), "search." \o e.how))

(* layer queries: keys, coordinates, batch ids, mask *)
EvLayer(h, e) ==
  LET o  == h[e.id]
      rs == Rows(o, e.d, e.ne)
      n  == Len(rs)
  IN Keep(h, IF e.err # "" THEN {"query.raised"}
             ELSE (IF Len(e.keys) # n THEN {"query.key.len"}
                   ELSE Chk(\A i \in 1..n : e.keys[i] = KeyOf(rs[i]), "query.key"))
                  \cup (IF ~IsShape(e.xyzb, <<n, 4>>) THEN {"query.xyzb.shape"}
                        ELSE Chk(\A i \in 1..n : e.xyzb.v[i] =
                               << rs[i][2], rs[i][3], rs[i][4], rs[i][1] >>, "query.xyzb"))
                  \cup (IF ~IsShape(e.bid, <<n>>) THEN {"query.batch_id.shape"}
                        ELSE Chk(\A i \in 1..n : e.bid.v[i] = rs[i][1], "query.batch_id"))
                  \cup (IF ~IsShape(e.mask, <<Num(o, e.d)>>) THEN {"query.mask.shape"}
                        ELSE Chk(\A i \in 1..Num(o, e.d) :
                               (e.mask.v[i] = 1) <=> Layer(o, e.d).ne[i], "query.mask")))

-----------------------------------------------------------------------------
(* input features.  Channels in the order N D L P F. *)
\* local offset of the mean point from the cell centre, as <<num, den>> per axis
LocNum(s, i, a) == s.sp[i][a] * 2 - Unit * s.cnt[i]
LocDen(s, i)    == 2 * Unit * s.cnt[i]
\* mean point in [-1, 1]:  (2*c + 2*rel - 2^depth) / 2^depth
GlbOk(q, o, i, a, cells, tol) ==
  LET s == o.sig
      c == cells[i][a + 1]
      num == (Unit * c * s.cnt[i] + s.sp[i][a]) * 2 - Unit * s.cnt[i] * (2^o.depth)
      den == Unit * s.cnt[i] * (2^o.depth)
  IN IF o.depth < 10 THEN Near(q, num, den, tol)        \* products stay below 2^31
     ELSE \* num * Scale / den, with Scale cancelled
          Close(q, num \div (s.cnt[i] * 2^(o.depth - 10)), tol + 1)

FeatVerdict(o, e, v, n, rows, pre) ==
  \* v: recorded matrix; rows: for matrix row r the leaf index or 0
  LET s  == o.sig
      cells == Rows(o, o.depth, TRUE)
      cN == IF e.f.N THEN 3 ELSE 0
      cD == IF e.f.D THEN 1 ELSE 0
      cL == IF e.f.L THEN 3 ELSE 0
      cP == IF e.f.P THEN 3 ELSE 0
      cF == IF e.f.F THEN s.fc ELSE 0
      C  == cN + cD + cL + cP + cF
      live == { r \in 1..n : rows[r] > 0 }
      nrm(r) == << v.v[r][1], v.v[r][2], v.v[r][3] >>
      \* normals used in D are those of the signal (recorded with the event)
      snr(r) == e.snm.v[rows[r]]
      dexp(r) == LET i == rows[r]
                     t(a) == (LocNum(s, i, a) * snr(r)[a]) \div LocDen(s, i)
                 IN t(1) + t(2) + t(3)
  IN IF ~IsShape(v, <<n, C>>) THEN {pre \o ".shape"}
     ELSE Chk(\A r \in 1..n : rows[r] = 0 => v.v[r] = ZeroVec(C), pre \o ".empty_rows")
          \cup (IF e.f.N THEN Chk(\A r \in live : UnitVecOk(nrm(r), s.sn[rows[r]]), pre \o ".N") ELSE {})
          \cup (IF e.f.D THEN
                  IF ~IsShape(e.snm, <<NumNe(o, o.depth), 3>>) THEN {pre \o ".normals"}
                  ELSE Chk(\A r \in live : UnitVecOk(snr(r), s.sn[rows[r]]) /\
                              Close(v.v[r][cN + 1], dexp(r), 6 + PtTol(o.depth)), pre \o ".D") ELSE {})
          \cup (IF e.f.L THEN Chk(\A r \in live : \A a \in 1..3 :
                  Near(v.v[r][cN + cD + a], LocNum(s, rows[r], a), LocDen(s, rows[r]),
                       PtTol(o.depth)), pre \o ".L") ELSE {})
          \cup (IF e.f.P THEN Chk(\A r \in live : \A a \in 1..3 :
                  GlbOk(v.v[r][cN + cD + cL + a], o, rows[r], a, cells, 3), pre \o ".P") ELSE {})
          \cup (IF e.f.F THEN Chk(\A r \in live : \A a \in 1..s.fc :
                  Near(v.v[r][cN + cD + cL + cP + a], s.sf[rows[r]][a], s.cnt[rows[r]], 3),
                  pre \o ".F") ELSE {})

EvFeat(h, e) ==
  LET o  == h[e.id]
      ly == Layer(o, o.depth)
      rows == IF e.ne THEN [i \in 1..Len(ly.p) |-> i]
              ELSE [i \in 1..Len(ly.n) |-> ly.rk[i] + 1]
  IN Keep(h, IF e.err # "" THEN {"feature.raised"}
             ELSE FeatVerdict(o, e, e.out, Len(rows), rows, "feature"))

(* export to points *)
EvToPoints(h, e) ==
  LET o  == h[e.id]
      s  == o.sig
      cells == Rows(o, o.depth, TRUE)
      n  == Len(cells)
      \* centre of cell in grid units = (2c+1)/2 ; in [-1,1]: (2c+1)/2^depth - 1
      ctr(i, a) == IF e.rescale
                   THEN Near(e.pts.v[i][a], 2*cells[i][a+1] + 1 - 2^o.depth, 2^o.depth, 3)
                   ELSE Near(e.pts.v[i][a], 2*cells[i][a+1] + 1, 2, 3)
      avg(i, a) == IF e.rescale THEN GlbOk(e.pts.v[i][a], o, i, a, cells, 3)
                   ELSE Near(e.pts.v[i][a] - cells[i][a+1] * Scale, s.sp[i][a],
                             Unit * s.cnt[i], PtTol(o.depth))
  IN Keep(h,
       IF e.err # "" THEN {"to_points.raised"}
       ELSE (IF ~IsShape(e.pts, <<n, 3>>) THEN {"to_points.shape"}
             ELSE Chk(\A i \in 1..n : \A a \in 1..3 :
                        IF s.has THEN avg(i, a) ELSE ctr(i, a), "to_points.points"))
            \cup (IF s.has /\ s.hn
                  THEN IF ~IsShape(e.nm, <<n, 3>>) THEN {"to_points.normals.shape"}
                       ELSE Chk(\A i \in 1..n : UnitVecOk(e.nm.v[i], s.sn[i]), "to_points.normals")
                  ELSE Chk(~IsT(e.nm), "to_points.normals.unexpected"))
            \cup (IF s.has /\ s.hf
                  THEN IF ~IsShape(e.ft, <<n, s.fc>>) THEN {"to_points.features.shape"}
                       ELSE Chk(\A i \in 1..n : \A a \in 1..s.fc :
                              Near(e.ft.v[i][a], s.sf[i][a], s.cnt[i], 3), "to_points.features")
                  ELSE Chk(~IsT(e.ft), "to_points.features.unexpected"))
            \cup Chk(IsShape(e.bid, <<n, 1>>) /\ \A i \in 1..n : e.bid.v[i][1] = cells[i][1],
                     "to_points.batch_id")
            \cup Chk(e.bs = o.bs, "to_points.batch_size"))
=============================================================================
