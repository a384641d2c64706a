-------------------------------- MODULE EvOps --------------------------------
(* Recorded calls of network operators against OpsModel.                      *)
EXTENDS OpsModel, TLC
LOCAL Kp(h, v) == [h |-> h, v |-> v]

Exact(out, x, n, c, nm) ==
  IF ~IsShape(out, <<n, c>>) THEN {nm \o ".shape"} ELSE Chk(out.v = x, nm)

\* ---- C09
EvCol(h, e) ==
  LET o == h[e.id]  t == Table(o, e.d, e.kernel, e.stride, e.ne)
      C == e.x.sh[2]
  IN Kp(h, IF e.err # "" THEN {"octree2col.raised"}
           ELSE IF ~IsShape(e.out, <<Len(t), Len(KernelOffsets(e.kernel)), C>>)
                THEN {"octree2col.shape"}
           ELSE Chk(e.out.v = Col(t, e.x.v, C), "octree2col"))
EvColT(h, e) ==
  LET o == h[e.id]  t == Table(o, e.d, e.kernel, e.stride, e.ne)
      C == e.x.sh[3]  n == NumRows(o, e.d, e.ne)
  IN Kp(h, IF e.err # "" THEN {"col2octree.raised"}
           ELSE Exact(e.out, ColT(t, e.x.v, n, C), n, C, "col2octree"))

\* ---- C10..C13
\* e.op: conv / deconv / dwconv / gconv;  e.wt: weights;  e.b: bias or <<>>
Weights(e) ==
  CASE e.op = "dwconv" -> DiagW(e.wt, e.ci)
    [] e.op = "gconv"  -> BlockW(e.wt, e.g, e.ci \div e.g, e.co \div e.g)
    [] OTHER           -> e.wt

LinVerdict(o, e) ==
  LET ci == e.ci  co == e.co
      w  == Weights(e)
      dec == e.op = "deconv"
      dn == IF dec THEN e.d + e.stride - 1 ELSE e.d
      t  == Table(o, dn, e.kernel, e.stride, e.ne)
      K  == Len(KernelOffsets(e.kernel))
      nOut == IF dec THEN NumRows(o, dn, e.ne)
              ELSE IF e.stride = 2 THEN NumRows(o, e.d - 1, e.ne) ELSE NumRows(o, e.d, e.ne)
      padded == e.stride = 2 /\ ~e.ne
      y  == IF dec THEN DeconvLayer(o, e.d, e.kernel, e.stride, e.ne, e.x.v, w, e.b, ci, co)
            ELSE ConvLayer(o, e.d, e.kernel, e.stride, e.ne, e.x.v, w, e.b, ci, co)
      \* gradients; g is the gradient of the output, times the number of passes
      g  == e.gy.v
      gc == IF dec THEN g ELSE IF padded THEN Depad(o, e.d - 1, g) ELSE g   \* before padding
      xc == IF dec /\ padded THEN Depad(o, e.d, e.x.v) ELSE e.x.v
      gx0 == IF dec THEN ConvRows(t, g, w, co, ci)
             ELSE ConvTRows(t, gc, w, NumRows(o, e.d, e.ne), ci, co)
      gx == IF dec /\ padded THEN Pad(o, e.d, gx0, ci, 0) ELSE gx0
      gw == IF dec THEN ConvWGrad(t, g, xc, K, co, ci) ELSE ConvWGrad(t, e.x.v, gc, K, ci, co)
      times(v) == [i \in 1..Len(v) |-> e.np * v[i]]
      sq(m) == [i \in 1..Len(m) |-> times(m[i])]
      sc(m) == [i \in 1..Len(m) |-> sq(m[i])]
  IN Exact(e.out, y, nOut, co, e.op \o ".forward")
     \cup (IF ~e.grad THEN {} ELSE
            (IF e.gx.k = "none" THEN Chk(~e.rx, e.op \o ".grad_input.missing")
             ELSE Exact(e.gx, sq(gx), Len(gx), ci, e.op \o ".grad_input"))
            \cup (IF ~IsT(e.gw) THEN Chk(~e.rw, e.op \o ".grad_weight.missing")
                  ELSE CASE e.op = "dwconv" ->
                         Chk(e.gw.v = [k \in 1..K |-> << [c \in 1..ci |-> e.np * gw[k][c][c]] >>],
                             "dwconv.grad_weight")
                       [] e.op = "gconv" ->
                         LET a == ci \div e.g  b == co \div e.g
                         IN Chk(e.gw.v = [q \in 1..e.g |-> [k \in 1..K |-> [i \in 1..a |->
                                  [j \in 1..b |-> e.np * gw[k][(q - 1) * a + i][(q - 1) * b + j]]]]],
                                "gconv.grad_weight")
                       [] OTHER -> Chk(e.gw.v = sc(gw), e.op \o ".grad_weight"))
            \cup (IF ~IsT(e.gb) THEN {}
                  ELSE Chk(e.gb.v = times(ColSum(gc, co)), e.op \o ".grad_bias")))

EvLin(h, e) == Kp(h, IF e.err # "" THEN {e.op \o ".raised"} ELSE LinVerdict(h[e.id], e))

\* ---- C14
EvMaxPool(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]  d == e.d
      np == NumNe(o, d - 1)
      live == { j \in 1..np : Len(LiveKids(o, d, j, e.ne)) > 0 }
      m == [j \in live |-> [c \in 1..C |-> PoolMax(o, d, j, c, e.ne, e.x.v)]]
      nOut == NumRows(o, d - 1, e.ne)
      row(j) == IF e.ne THEN j ELSE Layer(o, d - 1).p[j]
      emp == { i \in 1..nOut : ~e.ne /\ ~Layer(o, d - 1).ne[i] }
  IN Kp(h, IF e.err # "" THEN {"max_pool.raised"}
           ELSE IF ~IsShape(e.out, <<nOut, C>>) THEN {"max_pool.shape"}
           ELSE Chk(\A j \in live : e.out.v[row(j)] = m[j], "max_pool.value")
                \cup Chk(\A i \in emp : e.out.v[i] = ZeroVec(C), "max_pool.empty_rows")
                \cup (IF ~IsT(e.ind) THEN {}
                      ELSE IF ~IsShape(e.ind, <<np, C>>) THEN {"max_pool.indices.shape"}
                      ELSE Chk(\A j \in live : \A c \in 1..C :
                             LET k == e.ind.v[j][c]
                                 i == 8 * (j - 1) + k + 1
                             IN k \in 0..7 /\ (e.ne => Layer(o, d).ne[i])
                                /\ e.x.v[RowOf(o, d, i, e.ne)][c] = m[j][c],
                             "max_pool.indices")))
EvUnpool(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]
  IN Kp(h, IF e.err # "" THEN {"max_unpool.raised"}
           ELSE Exact(e.out, Unpool(o, e.d, e.x.v, e.ind.v, e.ne, C),
                      NumRows(o, e.d + 1, e.ne), C, "max_unpool"))

\* ---- C15
EvAvgPool(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]  d == e.d
      t == Table(o, d, e.kernel, e.stride, e.ne)
      nOut == IF e.stride = 2 THEN NumRows(o, d - 1, e.ne) ELSE NumRows(o, d, e.ne)
      padded == e.stride = 2 /\ ~e.ne
      row(r) == IF padded THEN Layer(o, d - 1).p[r] ELSE r
      ok(r) == LET ks == SelectSeq(Idx(Len(t[r])), LAMBDA k: t[r][k] >= 0)
               IN \A c \in 1..C :
                    LET q == e.out.v[row(r)][c]
                    IN IF Len(ks) = 0 THEN q = 0
                       ELSE Near(q, SumSeq([m \in 1..Len(ks) |-> e.x.v[t[r][ks[m]] + 1][c]], Len(ks)),
                                 Len(ks), 2)
  IN Kp(h, IF e.err # "" THEN {"avg_pool.raised"}
           ELSE IF ~IsShape(e.out, <<nOut, C>>) THEN {"avg_pool.shape"}
           ELSE Chk(\A r \in 1..Len(t) : ok(r), "avg_pool.value")
                \cup Chk(padded => \A i \in 1..nOut : ~Layer(o, d - 1).ne[i] => e.out.v[i] = ZeroVec(C),
                         "avg_pool.empty_rows"))
EvGPool(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]
      ok(b) == LET rs == RowsOf(o, e.d, e.ne, b)
               IN \A c \in 1..C :
                    IF Len(rs) = 0 THEN e.out.v[b + 1][c] = 0
                    ELSE Near(e.out.v[b + 1][c],
                              SumSeq([m \in 1..Len(rs) |-> e.x.v[rs[m]][c]], Len(rs)), Len(rs), 2)
  IN Kp(h, IF e.err # "" THEN {"global_pool.raised"}
           ELSE IF ~IsShape(e.out, <<o.bs, C>>) THEN {"global_pool.shape"}
           ELSE Chk(\A b \in 0..(o.bs - 1) : ok(b), "global_pool.value"))

\* ---- C16
EvPad(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]
  IN Kp(h, IF e.err # "" THEN {"pad.raised"}
           ELSE Exact(e.out, Pad(o, e.d, e.x.v, C, e.val), Num(o, e.d), C, "pad"))
EvDepad(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]
  IN Kp(h, IF e.err # "" THEN {"depad.raised"}
           ELSE Exact(e.out, Depad(o, e.d, e.x.v), NumNe(o, e.d), C, "depad"))
EvVoxel(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]  n == 2^e.d
      val(b, x, y, z) == LET i == FindIn(o, e.d, <<b, x, y, z>>, e.ne)
                         IN IF i < 0 THEN ZeroVec(C) ELSE e.x.v[i + 1]
  IN Kp(h, IF e.err # "" THEN {"voxel.raised"}
           ELSE IF ~IsShape(e.out, <<o.bs, n, n, n, C>>) THEN {"voxel.shape"}
           ELSE Chk(\A b \in 1..o.bs : \A x, y, z \in 1..n :
                      e.out.v[b][x][y][z] = val(b - 1, x - 1, y - 1, z - 1), "voxel.value"))

\* ---- C17
EvAlign(h, e) ==
  LET o == h[e.id]  q == h[e.to]  C == e.x.sh[2]
      rs == Rows(q, e.d, e.ne)
      val(i) == LET j == FindIn(o, e.d, rs[i], e.ne)
                IN IF j < 0 THEN ZeroVec(C) ELSE e.x.v[j + 1]
  IN Kp(h, IF e.err # "" THEN {"align.raised"}
           ELSE Chk(e.out.dt = e.x.dt, "align.dtype")
                \cup Exact(e.out, [i \in 1..Len(rs) |-> val(i)], Len(rs), C, "align"))
\* search_value on sorted distinct keys given as cells
EvSearchValue(h, e) ==
  LET C == e.x.sh[2]
      pos(c) == { j \in 1..Len(e.keys) : e.keys[j] = c }
      val(c) == IF pos(c) = {} THEN ZeroVec(C) ELSE e.x.v[CHOOSE j \in pos(c) : TRUE]
  IN Kp(h, IF e.err # "" THEN {"search_value.raised"}
           ELSE Chk(e.out.dt = e.x.dt, "search_value.dtype")
                \cup Exact(e.out, [i \in 1..Len(e.q) |-> val(e.q[i])], Len(e.q), C, "search_value"))

\* ---- C18, C19
InBounds(p, d, den) == \A a \in 2..4 : p[a] >= 0 /\ p[a] < den * (2^d)
EvNearest(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]  n == Len(e.q)
      val(p) == LET r == IF InBounds(p, e.d, e.den) THEN NearestRow(o, e.d, p, e.den, e.ne) ELSE -1
                IN IF r < 0 THEN ZeroVec(C) ELSE e.x.v[r + 1]
  IN Kp(h, IF e.err # "" THEN {"nearest.raised"}
           ELSE Exact(e.out, [i \in 1..n |-> val(e.q[i])], n, C, "nearest"))

LinOk(q, o, d, p, den, ne, x, C) ==
  LET st == Stencil(o, d, p, den, ne)
      w  == StencilW(st)
  IN \A c \in 1..C : IF w = 0 THEN q[c] = 0 ELSE Near(q[c], StencilSum(st, x, c), w, 2)
EvLinear(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]  n == Len(e.q)
  IN Kp(h, IF e.err # "" THEN {"linear.raised"}
           ELSE IF ~IsShape(e.out, <<n, C>>) THEN {"linear.shape"}
           ELSE Chk(\A i \in 1..n : LinOk(e.out.v[i], o, e.d, e.q[i], e.den, e.ne, e.x.v, C),
                    "linear.value"))
EvUpsample(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]
      rs == Rows(o, e.t, e.ne)
      s == 2^(e.t - e.d)
      anc(c) == << c[1], c[2] \div s, c[3] \div s, c[4] \div s >>
      row(c) == FindIn(o, e.d, anc(c), e.ne)
      ctr(c) == << c[1], 2*c[2] + 1, 2*c[3] + 1, 2*c[4] + 1 >>
  IN Kp(h, IF e.err # "" THEN {"upsample.raised"}
           ELSE IF ~IsShape(e.out, <<Len(rs), C>>) THEN {"upsample.shape"}
           ELSE IF e.t = e.d THEN
             Chk(\A i \in 1..Len(rs) : \A c \in 1..C : e.out.v[i][c] = e.x.v[i][c] * Scale, "upsample.same")
           ELSE IF e.method = "nearest" THEN
             Chk(\A i \in 1..Len(rs) : row(rs[i]) >= 0 =>
                   \A c \in 1..C : e.out.v[i][c] = e.x.v[row(rs[i]) + 1][c] * Scale, "upsample.nearest")
           ELSE Chk(\A i \in 1..Len(rs) :
                      LinOk(e.out.v[i], o, e.d, ctr(rs[i]), 2 * s, e.ne, e.x.v, C), "upsample.linear"))

\* ---- C20: y = (x - mean) / sd * w + b per sample and channel group
EvGNorm(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]  G == e.g  cpg == C \div e.g
      ok(b, g) ==
        LET rs == RowsOf(o, e.d, e.ne, b)
            n  == Len(rs) * cpg
            ch == [j \in 1..cpg |-> (g - 1) * cpg + j]
            base == e.x.v[rs[1]][ch[1]]         \* the result is invariant under a shift of the group
            x == TLCEval([m \in 1..Len(e.x.v) |-> TLCEval([j \in 1..C |-> e.x.v[m][j] - base])])
            s1 == SumSeq([m \in 1..Len(rs) |-> SumSeq([j \in 1..cpg |-> x[rs[m]][ch[j]]], cpg)], Len(rs))
            s2 == SumSeq([m \in 1..Len(rs) |->
                            SumSeq([j \in 1..cpg |-> x[rs[m]][ch[j]] * x[rs[m]][ch[j]]], cpg)], Len(rs))
            V  == n * s2 - s1 * s1                 \* n^2 times the variance
            mean == Abs(base) + (Abs(s1) \div n) + 1
            k  == ShiftFor(V, 0)
            r  == Isqrt(V * (4^k))                 \* 2^k n sd
            zexp(i, c) == \* (n x - s1) * Scale * 2^k / r without overflow
               LET a == (n * x[i][c] - s1) * (2^k)
                   q == a \div r   m == a % r
               IN q * Scale + ((m * 64) \div r) * (Scale \div 64)
                  + ((((m * 64) % r) * (Scale \div 64)) \div r)
        IN Len(rs) > 0 =>
           \A m \in 1..Len(rs) : \A j \in 1..cpg :
             LET i == rs[m]  c == ch[j]
                 q == e.out.v[i][c]
                 w == e.wt[c]  bb == e.b[c]
             IN IF V = 0 THEN Close(q, bb * Scale, Abs(w) * ((14 * Abs(s1 + n * base)) \div (n * n) + 6 + (mean \div 3)) + 2)
                ELSE LET z == zexp(i, c)
                         tol == 6 + Abs(z) \div 512 + (Abs(z) * Min2(200, 1 + ((n * n) \div V))) \div 100000
                                + ((((n * (2^k) * 64) \div r) * mean) \div 25600)
                                + (((((2^k) * 4096) \div r) + 1) * mean) \div 80000
                     IN Close(q, w * z + bb * Scale, Abs(w) * tol + 2)
  IN Kp(h, IF e.err # "" THEN {"group_norm.raised"}
           ELSE IF ~IsShape(e.out, e.x.sh) THEN {"group_norm.shape"}
           ELSE Chk(\A b \in 0..(o.bs - 1) : \A g \in 1..G : ok(b, g), "group_norm.value"))

\* ---- C21: keep probability kn/kd
DropOne(o, e, outs) ==
  \A b \in 0..(o.bs - 1) :
    LET rs == IF Len(e.bid) > 0 THEN SelectSeq(Idx(Len(e.bid)), LAMBDA i: e.bid[i] = b)
              ELSE RowsOf(o, e.d, e.ne, b)
        C == e.x.sh[2]
        zero == \A m \in 1..Len(rs) : outs[rs[m]] = ZeroVec(C)
        kept == \A m \in 1..Len(rs) : \A c \in 1..C :
                  IF e.scale THEN Near(outs[rs[m]][c], e.x.v[rs[m]][c] * e.kd, e.kn, 2)
                  ELSE outs[rs[m]][c] = e.x.v[rs[m]][c] * Scale
    IN IF ~e.train \/ e.kn = e.kd THEN
            \A m \in 1..Len(rs) : \A c \in 1..C : outs[rs[m]][c] = e.x.v[rs[m]][c] * Scale
       ELSE IF e.kn = 0 THEN zero ELSE zero \/ kept
EvDrop(h, e) ==
  LET o == h[e.id]
  IN Kp(h, IF e.err # "" THEN {"drop_path.raised"}
           ELSE IF ~IsShape(e.out, e.x.sh) THEN {"drop_path.shape"}
           ELSE Chk(DropOne(o, e, e.out.v), "drop_path.value"))
\* many draws: runs[t][b] = 1 if sample b was kept in run t (all features non-zero)
EvDropStat(h, e) ==
  LET n == Len(e.runs)  B == Len(e.runs[1])
      tot == SumSeq([t \in 1..n |-> SumSeq(e.runs[t], B)], n)
      dev == Abs(tot * e.kd - n * B * e.kn)       \* kd * |kept - n B p|
      \* seven standard deviations of the number of kept samples
      indep == \A a, b \in 1..B : a < b =>
                 (\E t \in 1..n : e.runs[t][a] = 1 /\ e.runs[t][b] = 0)
                 /\ (\E t \in 1..n : e.runs[t][a] = 0 /\ e.runs[t][b] = 1)
  IN Kp(h, IF e.err # "" THEN {"drop_path.raised"}
           ELSE Chk(dev * dev <= 49 * n * B * e.kn * (e.kd - e.kn), "drop_path.probability")
                \cup Chk(indep, "drop_path.independence"))

\* ---- C31: tensors as flat sequences with a shape
RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN 1 ELSE s[1] * Prod(Tail(s))
\* 0-based coordinates of 0-based flat position f
RECURSIVE Unflat(_, _)
Unflat(f, sh) == IF Len(sh) = 0 THEN <<>>
                 ELSE LET n == Prod(Tail(sh)) IN << f \div n >> \o Unflat(f % n, Tail(sh))
RECURSIVE Flat(_, _)
Flat(c, sh) == IF Len(sh) = 0 THEN 0 ELSE c[1] * Prod(Tail(sh)) + Flat(Tail(c), Tail(sh))
Axis(dim, n) == IF dim < 0 THEN n + dim + 1 ELSE dim + 1       \* 1-based

EvScatter(h, e) ==
  LET sh == e.src.sh  nd == Len(sh)  ax == Axis(e.dim, nd)  n == Prod(sh)
      ish == e.index.sh
      \* index value that belongs to source coordinates c (broadcasting)
      ixof(c) == IF Len(ish) = 1 THEN e.index.v[c[ax] + 1]
                 ELSE e.index.v[Flat([i \in 1..Len(ish) |-> IF ish[i] = 1 THEN 0 ELSE c[i]], ish) + 1]
      osh == [sh EXCEPT ![ax] = e.osize]
      base == IF e.given THEN e.into.v ELSE [i \in 1..Prod(osh) |-> 0]
      res == FoldLeft(LAMBDA acc, f:
               LET c == Unflat(f - 1, sh)
                   p == Flat([c EXCEPT ![ax] = ixof(c)], osh) + 1
               IN [acc EXCEPT ![p] = @ + e.src.v[f]], base, Idx(n))
  IN Kp(h, IF e.err # "" THEN {"scatter_add.raised"}
           ELSE Chk(e.out.sh = osh, "scatter_add.shape")
                \cup (IF e.out.sh = osh THEN Chk(e.out.v = res, "scatter_add.value") ELSE {})
                \cup Chk(e.given => e.after.v = res, "scatter_add.destination")
                \cup Chk(e.out.dt = e.src.dt, "scatter_add.dtype"))

EvCumsum(h, e) ==
  LET sh == e.x.sh  ax == Axis(e.dim, Len(sh))
      osh == IF e.excl THEN [sh EXCEPT ![ax] = @ + 1] ELSE sh
      at(c) == e.x.v[Flat(c, sh) + 1]
      prev(c) == e.out.v[Flat([c EXCEPT ![ax] = @ - 1], osh) + 1]
      \* by induction along the axis: each entry is the one before it plus one element
      val(c) == IF c[ax] = 0 THEN (IF e.excl THEN 0 ELSE at(c))
                ELSE prev(c) + at(IF e.excl THEN [c EXCEPT ![ax] = @ - 1] ELSE c)
  IN Kp(h, IF e.err # "" THEN {"cumsum.raised"}
           ELSE IF e.out.sh # osh THEN {"cumsum.shape"}
           ELSE Chk(\A f \in 1..Prod(osh) : e.out.v[f] = val(Unflat(f - 1, osh)), "cumsum.value"))
EvGrid(h, e) ==
  LET n == e.hi - e.lo + 1
  IN Kp(h, IF e.err # "" THEN {"range_grid.raised"}
           ELSE IF ~IsShape(e.out, <<n * n * n, 3>>) THEN {"range_grid.shape"}
           ELSE Chk(\A f \in 1..(n * n * n) :
                      e.out.v[f] = << e.lo + ((f - 1) \div (n * n)), e.lo + (((f - 1) \div n) % n),
                                      e.lo + ((f - 1) % n) >>, "range_grid.value"))
EvResize(h, e) ==
  Kp(h, IF e.err # "" THEN {"resize.raised"}
        ELSE Chk(e.out = [i \in 1..Max2(e.num, Len(e.x)) |-> e.x[Min2(i, Len(e.x))]], "resize.value")
             \cup Chk(e.str = [i \in 1..Len(e.out) |-> ToString(e.out[i])], "list2str"))
EvTDiv(h, e) ==
  LET q(a, b) == LET m == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN m ELSE -m
  IN Kp(h, IF e.err # "" THEN {"trunc_div.raised"}
           ELSE Chk(\A i \in 1..Len(e.a) : e.out.v[i] = q(e.a[i], e.b[i]), "trunc_div"))
EvXavier(h, e) ==
  LET F == e.sh[1] * (e.sh[2] + e.sh[3])     \* fan_in + fan_out; bound^2 = 6 / F
      \* e.mx: largest magnitude, unit 1/4096
  IN Kp(h, IF e.err # "" THEN {"xavier.raised"}
           ELSE Chk(((e.mx * e.mx) \div 64) * F <= ((6 * Scale * Scale) \div 64) + 40000, "xavier.bound")
                \cup Chk(((e.mx * e.mx) \div 64) * F >= ((3 * Scale * Scale) \div 64), "xavier.spread"))

HandleOps(h, e) ==
  CASE e.e = "col"      -> EvCol(h, e)
    [] e.e = "colT"     -> EvColT(h, e)
    [] e.e = "lin"      -> EvLin(h, e)
    [] e.e = "maxpool"  -> EvMaxPool(h, e)
    [] e.e = "unpool"   -> EvUnpool(h, e)
    [] e.e = "avgpool"  -> EvAvgPool(h, e)
    [] e.e = "gpool"    -> EvGPool(h, e)
    [] e.e = "pad"      -> EvPad(h, e)
    [] e.e = "depad"    -> EvDepad(h, e)
    [] e.e = "voxel"    -> EvVoxel(h, e)
    [] e.e = "align"    -> EvAlign(h, e)
    [] e.e = "searchv"  -> EvSearchValue(h, e)
    [] e.e = "nearest"  -> EvNearest(h, e)
    [] e.e = "linear"   -> EvLinear(h, e)
    [] e.e = "up"       -> EvUpsample(h, e)
    [] e.e = "gnorm"    -> EvGNorm(h, e)
    [] e.e = "drop"     -> EvDrop(h, e)
    [] e.e = "dropstat" -> EvDropStat(h, e)
    [] e.e = "scatter"  -> EvScatter(h, e)
    [] e.e = "cumsum"   -> EvCumsum(h, e)
    [] e.e = "grid"     -> EvGrid(h, e)
    [] e.e = "resize"   -> EvResize(h, e)
    [] e.e = "tdiv"     -> EvTDiv(h, e)
    [] e.e = "xavier"   -> EvXavier(h, e)
    [] OTHER -> Kp(h, {"unknown_event"})
=============================================================================
