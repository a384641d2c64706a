------------------------------ MODULE OpsModel -------------------------------
(* The operators of the octree neural network, defined on abstract octrees.   *)
(* A feature is a sequence of rows (sequences of integers); row i belongs to  *)
(* the i-th cell of Rows(o, d, ne).  All definitions are by cell geometry.    *)
EXTENDS OctreeModel, Common

Idx(n) == [i \in 1..n |-> i]
SumSeq(f, n) == FoldLeft(LAMBDA a, i: a + f[i], 0, Idx(n))

\* neighbourhood table of the layer, by geometry (no cached state needed)
Table(o, d, kernel, stride, ne) ==
  IF Len(o.nb[d + 1]) > 0 THEN GetNeigh(o, d, kernel, stride, ne)
  ELSE GetNeigh(ConstructNeigh(o, d), d, kernel, stride, ne)

-----------------------------------------------------------------------------
(* rows <-> nodes *)
Pad(o, d, x, c, val) ==
  [i \in 1..Num(o, d) |-> LET r == Layer(o, d).rk[i]
                          IN IF r < 0 THEN [j \in 1..c |-> val] ELSE x[r + 1]]
Depad(o, d, x) == [i \in 1..NumNe(o, d) |-> x[Layer(o, d).p[i]]]

-----------------------------------------------------------------------------
(* gather / scatter over a table t of R rows and K offsets *)
Col(t, x, c) == [r \in 1..Len(t) |-> [k \in 1..Len(t[r]) |->
                   IF t[r][k] < 0 THEN ZeroVec(c) ELSE x[t[r][k] + 1]]]

\* entries of the table that point at each of the n big-side rows
Incoming(t, n) ==
  FoldLeft(LAMBDA acc, r:
      FoldLeft(LAMBDA a2, k: IF t[r][k] < 0 THEN a2
                             ELSE [a2 EXCEPT ![t[r][k] + 1] = Append(@, <<r, k>>)],
               acc, Idx(Len(t[r]))),
    [i \in 1..n |-> <<>>], Idx(Len(t)))

ColT(t, y, n, c) ==
  LET inc == Incoming(t, n)
  IN [i \in 1..n |-> [j \in 1..c |->
        FoldLeft(LAMBDA a, p: a + y[p[1]][p[2]][j], 0, inc[i])]]

-----------------------------------------------------------------------------
(* convolution over a table; w[k][ci][co] *)
ConvRows(t, x, w, ci, co) ==
  [r \in 1..Len(t) |->
     LET ks == SelectSeq(Idx(Len(t[r])), LAMBDA k: t[r][k] >= 0)
     IN [o \in 1..co |->
          FoldLeft(LAMBDA a, k: a + SumSeq([c \in 1..ci |-> x[t[r][k] + 1][c] * w[k][c][o]], ci),
                   0, ks)]]

\* transposed map: y on table rows -> big-side rows
ConvTRows(t, y, w, n, ci, co) ==
  LET inc == Incoming(t, n)
  IN [i \in 1..n |-> [c \in 1..ci |->
        FoldLeft(LAMBDA a, p: a + SumSeq([o \in 1..co |-> y[p[1]][o] * w[p[2]][c][o]], co),
                 0, inc[i])]]

\* gradient of <y, Conv(x)> with respect to w
ConvWGrad(t, x, y, K, ci, co) ==
  [k \in 1..K |->
     LET rs == SelectSeq(Idx(Len(t)), LAMBDA r: t[r][k] >= 0)
     IN [c \in 1..ci |-> [o \in 1..co |->
          FoldLeft(LAMBDA a, r: a + x[t[r][k] + 1][c] * y[r][o], 0, rs)]]]

\* depth-wise: w[k][1][c]; equals the convolution with a diagonal weight
DiagW(w, c) == [k \in 1..Len(w) |-> [i \in 1..c |-> [j \in 1..c |->
                  IF i = j THEN w[k][1][i] ELSE 0]]]
\* group convolution: g blocks ws[g][k][ci][co]; equals a block-diagonal weight
BlockW(ws, g, ci, co) ==
  [k \in 1..Len(ws[1]) |-> [i \in 1..(g * ci) |-> [j \in 1..(g * co) |->
     LET a == (i - 1) \div ci  b == (j - 1) \div co
     IN IF a # b THEN 0 ELSE ws[a + 1][k][((i - 1) % ci) + 1][((j - 1) % co) + 1]]]]

AddBias(y, b) == [r \in 1..Len(y) |-> VecAdd(y[r], b)]
ColSum(y, c) == [j \in 1..c |-> SumSeq([r \in 1..Len(y) |-> y[r][j]], Len(y))]

\* the full layer: b = <<>> when there is no bias
ConvLayer(o, d, kernel, stride, ne, x, w, b, ci, co) ==
  LET y0 == ConvRows(Table(o, d, kernel, stride, ne), x, w, ci, co)
      y1 == IF Len(b) > 0 THEN AddBias(y0, b) ELSE y0
  IN IF stride = 2 /\ ~ne THEN Pad(o, d - 1, y1, co, 0) ELSE y1

\* deconvolution from depth d to depth d + (stride - 1); w[k][cout][cin]
DeconvLayer(o, d, kernel, stride, ne, x, w, b, ci, co) ==
  LET dn == d + stride - 1
      x1 == IF stride = 2 /\ ~ne THEN Depad(o, d, x) ELSE x
      y0 == ConvTRows(Table(o, dn, kernel, stride, ne), x1, w, NumRows(o, dn, ne), co, ci)
  IN IF Len(b) > 0 THEN AddBias(y0, b) ELSE y0

-----------------------------------------------------------------------------
(* pooling.  Split parent j (1-based) of layer d - 1 owns nodes 8(j-1)+1..8j. *)
Kids(j) == [k \in 1..8 |-> 8 * (j - 1) + k]
\* children of split parent j whose features exist
LiveKids(o, d, j, ne) ==
  SelectSeq(Kids(j), LAMBDA i: ~ne \/ Layer(o, d).ne[i])
RowOf(o, d, i, ne) == IF ne THEN Layer(o, d).rk[i] + 1 ELSE i   \* node -> row
MaxOf(s) == FoldLeft(LAMBDA a, v: IF v > a THEN v ELSE a, s[1], s)
\* value of split parent j, channel c (only if it has a live child)
PoolMax(o, d, j, c, ne, x) ==
  LET lk == LiveKids(o, d, j, ne)
  IN MaxOf([m \in 1..Len(lk) |-> x[RowOf(o, d, lk[m], ne)][c]])

\* unpool from layer d to layer d + 1
Unpool(o, d, x, ind, ne, C) ==
  LET x1 == IF ne THEN x ELSE Depad(o, d, x)
      rs == IF ne THEN Layer(o, d + 1).p ELSE Idx(Num(o, d + 1))
  IN [i \in 1..Len(rs) |->
       LET j == (rs[i] - 1) \div 8 + 1
           k == (rs[i] - 1) % 8
       IN [c \in 1..C |-> IF ind[j][c] = k THEN x1[j][c] ELSE 0]]

\* batch element rows
RowsOf(o, d, ne, b) ==
  LET rs == Rows(o, d, ne) IN SelectSeq(Idx(Len(rs)), LAMBDA i: rs[i][1] = b)

-----------------------------------------------------------------------------
(* interpolation; a point is <<b, ux, uy, uz>> in units of 1/den cell *)
NearestRow(o, d, p, den, ne) ==
  LET c == <<p[1], p[2] \div den, p[3] \div den, p[4] \div den>>
  IN FindIn(o, d, c, ne)

\* the corners of the trilinear stencil that exist: sequence of <<row, weight>>
Stencil(o, d, p, den, ne) ==
  LET h == den \div 2
      i(a) == (p[a] - h) \div den
      f(a) == (p[a] - h) % den
      c0 == <<p[1], i(2), i(3), i(4)>>
      fr == <<f(2), f(3), f(4)>>
      one(k) == LET g == << k \div 4, (k \div 2) % 2, k % 2 >>
                    w(a) == IF g[a] = 1 THEN fr[a] ELSE den - fr[a]
                IN << FindIn(o, d, <<c0[1], c0[2] + g[1], c0[3] + g[2], c0[4] + g[3]>>, ne),
                      w(1) * w(2) * w(3) >>
      all == [k \in 1..8 |-> one(k - 1)]
  IN SelectSeq(all, LAMBDA q: q[1] >= 0 /\ q[2] > 0)

StencilSum(st, x, c) == SumSeq([m \in 1..Len(st) |-> st[m][2] * x[st[m][1] + 1][c]], Len(st))
StencilW(st) == SumSeq([m \in 1..Len(st) |-> st[m][2]], Len(st))

-----------------------------------------------------------------------------
(* integer square root by bisection: the largest r with r*r <= n, 0 <= n < 2^30 *)
RECURSIVE IsqrtR(_, _, _)
IsqrtR(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2
                          IN IF m * m <= n THEN IsqrtR(n, m, hi) ELSE IsqrtR(n, lo, m)
Isqrt(n) == IF n = 0 THEN 0 ELSE IsqrtR(n, 1, 32768)
\* the largest k with v * 4^k < 2^28
RECURSIVE ShiftFor(_, _)
ShiftFor(v, k) == IF v * 4 >= 2^28 \/ k >= 12 THEN k ELSE ShiftFor(v * 4, k + 1)
=============================================================================
