----------------------------- MODULE OpsDesign ------------------------------
(* Operators on octrees, executed block by block as a memory-bounded          *)
(* implementation must, for every small octree, kernel, stride, mode and      *)
(* every way of cutting the rows into blocks.  The running results of the     *)
(* three passes (output, input gradient, weight gradient) have to arrive at   *)
(* the definitions of OpsModel, and the passes have to be adjoint to each     *)
(* other; padding, pooling and interpolation laws are checked on the way.     *)
EXTENDS OpsModel, TLC
CONSTANTS Depth, MaxCells, MaxBatch, Kernels, Rnd
VARIABLES pc, o, cfg, pos, y, gx, gw

RECURSIVE UpTo(_, _)
UpTo(k, S_) == IF k = 0 THEN {{}} ELSE LET t == UpTo(k - 1, S_) IN t \cup UNION { { u \cup {c} : c \in S_ } : u \in t }
G(bs) == { << b, x, yy, z >> : b \in 0..(bs - 1), x \in 0..(2^Depth - 1), yy \in 0..(2^Depth - 1), z \in 0..(2^Depth - 1) }
\* Rnd: a fixed pseudo-random third of the grid, so that two-cell octrees stay tractable
Sub(S_) == IF Rnd THEN { c \in S_ : (5 * c[1] + 3 * c[2] + 7 * c[3] + c[4] + c[2] * c[4]) % 5 \in {0, 1} } ELSE S_

CI == 2
CO == 2
X(n) == [i \in 1..n |-> [c \in 1..CI |-> (((i * 7) + (c * 3)) % 11) - 5]]
Y(n) == [i \in 1..n |-> [c \in 1..CO |-> (((i * 5) + (c * 4)) % 13) - 6]]
Wt(K) == [k \in 1..K |-> [c \in 1..CI |-> [e \in 1..CO |-> (((k * 3) + (c * 5) + (e * 2)) % 7) - 3]]]
T(oo, f) == Table(oo, Depth, f.k, f.s, f.ne)
NIn(oo, f) == NumRows(oo, Depth, f.ne)
DotM(a, b) == SumSeq([i \in 1..Len(a) |-> SumSeq([c \in 1..Len(a[i]) |-> a[i][c] * b[i][c]], Len(a[i]))], Len(a))
DotW(a, b) == SumSeq([k \in 1..Len(a) |-> DotM(a[k], b[k])], Len(a))
ZeroM(n, c) == [i \in 1..n |-> ZeroVec(c)]

None == [depth |-> -1]
Init == pc = "cell" /\ o = None /\ pos = 0 /\ y = <<>> /\ gx = <<>> /\ gw = <<>>
        /\ cfg \in [k : Kernels, s : {1, 2}, ne : BOOLEAN, full : 0..1, bs : 1..MaxBatch]
Choose ==
  /\ pc = "cell"
  /\ \E c \in Sub(G(cfg.bs)) : \E u \in UpTo(MaxCells - 1, Sub(G(cfg.bs))) :
       LET oo == ConstructAllNeigh(BuildOctree({c} \cup u, Depth, cfg.full, cfg.bs))
           t  == T(oo, cfg)
       IN /\ o' = oo
          /\ gx' = ZeroM(NIn(oo, cfg), CI)
          /\ gw' = [k \in 1..Len(KernelOffsets(cfg.k)) |-> ZeroM(CI, CO)]
  /\ pc' = "run" /\ UNCHANGED << cfg, pos, y >>

VecSum(a, b) == [i \in 1..Len(a) |-> VecAdd(a[i], b[i])]
\* one block of n rows of the table
Block(n) ==
  LET t  == T(o, cfg)
      tb == SubSeq(t, pos + 1, pos + n)
      K  == Len(gw)
      w  == Wt(K)
      yb == [i \in 1..n |-> Y(Len(t))[pos + i]]
      g1 == ConvTRows(tb, yb, w, NIn(o, cfg), CI, CO)
      g2 == ConvWGrad(tb, X(NIn(o, cfg)), yb, K, CI, CO)
  IN /\ y' = y \o ConvRows(tb, X(NIn(o, cfg)), w, CI, CO)
     /\ gx' = VecSum(gx, g1)
     /\ gw' = [k \in 1..K |-> VecSum(gw[k], g2[k])]
     /\ pos' = pos + n
     /\ UNCHANGED << o, cfg >>
     /\ pc' = IF pos + n = Len(t) THEN "done" ELSE "run"
\* block sizes: one row, a few, half, everything (all orders arise)
Run == /\ pc = "run"
       /\ LET r == Len(T(o, cfg)) - pos
          IN \E n \in { 1, 3, (r + 1) \div 2, r } : n <= r /\ n >= 1 /\ (n \in {1, 3} => pos <= 3) /\ Block(n)
Next == Choose \/ Run
Spec == Init /\ [][Next]_<< pc, o, cfg, pos, y, gx, gw >>

Rows2 == Len(T(o, cfg))
Whole == pc = "done" =>
  LET t == T(o, cfg)  K == Len(gw)  w == Wt(K)  n == NIn(o, cfg)
  IN /\ y = ConvRows(t, X(n), w, CI, CO)
     /\ gx = ConvTRows(t, Y(Len(t)), w, n, CI, CO)
     /\ gw = ConvWGrad(t, X(n), Y(Len(t)), K, CI, CO)
Adjoint == pc = "done" =>
  LET t == T(o, cfg) w == Wt(Len(gw)) n == NIn(o, cfg)  a == DotM(y, Y(Len(t)))
  IN a = DotM(X(n), gx) /\ a = DotW(w, gw)
\* gathering and scattering are adjoint too, and compose to "convolve with ones"
ColLaw == pc = "run" /\ pos = 0 =>
  LET t == T(o, cfg)  n == NIn(o, cfg)  K == Len(gw)
      yy == [r \in 1..Len(t) |-> [k \in 1..K |-> [c \in 1..CI |-> ((r * k + c) % 5) - 2]]]
      cx == Col(t, X(n), CI)
      ct == ColT(t, yy, n, CI)
  IN /\ SumSeq([r \in 1..Len(t) |-> DotM(cx[r], yy[r])], Len(t)) = DotM(X(n), ct)
     /\ ConvRows(t, X(n), [k \in 1..K |-> [i \in 1..CI |-> [j \in 1..CO |-> IF i = j THEN 1 ELSE 0]]], CI, CO)
          = [r \in 1..Len(t) |-> [c \in 1..CI |-> SumSeq([k \in 1..K |-> cx[r][k][c]], K)]]
PadLaw == pc = "run" /\ pos = 0 =>
  LET x == X(NumNe(o, Depth)) p == Pad(o, Depth, x, CI, 4)
  IN /\ Depad(o, Depth, p) = x
     /\ \A i \in 1..Num(o, Depth) : ~Layer(o, Depth).ne[i] => p[i] = [c \in 1..CI |-> 4]
\* unpooling the maxima at their arg-max positions, then pooling again (all values positive)
PoolLaw == pc = "run" /\ pos = 0 /\ cfg.s = 2 =>
  LET n == NumRows(o, Depth, cfg.ne)
      x == [i \in 1..n |-> << 1 + ((i * 7) % 11) >>]
      P == NumNe(o, Depth - 1)
  IN (\A j \in 1..P : Len(LiveKids(o, Depth, j, cfg.ne)) > 0) =>
     LET m  == [j \in 1..P |-> << PoolMax(o, Depth, j, 1, cfg.ne, x) >>]
         am == [j \in 1..P |-> << LET lk == LiveKids(o, Depth, j, cfg.ne)
                                  IN (CHOOSE i \in { lk[q] : q \in 1..Len(lk) } :
                                        x[RowOf(o, Depth, i, cfg.ne)][1] = m[j][1]) - (8 * (j - 1)) - 1 >>]
         xin == IF cfg.ne THEN m ELSE Pad(o, Depth - 1, m, 1, 0)
         u  == Unpool(o, Depth - 1, xin, am, cfg.ne, 1)
     IN /\ Len(u) = n
        /\ [j \in 1..P |-> << PoolMax(o, Depth, j, 1, cfg.ne, u) >>] = m
        /\ \A i \in 1..n : u[i][1] \in {0, x[i][1]}
\* interpolation: a cell's centre reproduces the cell, and weights of a complete stencil add up
InterpLaw == pc = "run" /\ pos = 0 =>
  LET rs == Rows(o, Depth, cfg.ne)
      ctr(i) == << rs[i][1], (4 * rs[i][2]) + 2, (4 * rs[i][3]) + 2, (4 * rs[i][4]) + 2 >>
      off(i) == << rs[i][1], (4 * rs[i][2]) + 3, (4 * rs[i][3]) + 2, (4 * rs[i][4]) + 1 >>
  IN \A i \in 1..Len(rs) :
       /\ NearestRow(o, Depth, ctr(i), 4, cfg.ne) = i - 1
       /\ Stencil(o, Depth, ctr(i), 4, cfg.ne) = << << i - 1, 64 >> >>
       /\ NearestRow(o, Depth, off(i), 4, cfg.ne) = i - 1
       /\ LET st == Stencil(o, Depth, off(i), 4, cfg.ne)
          IN /\ StencilW(st) <= 64
             /\ Len(st) = 4 <=> StencilW(st) = 64
             /\ \A q \in 1..Len(st) : rs[st[q][1] + 1][1] = rs[i][1]
\* stride 2, kernel 222: every output row sees exactly its eight children
FamilyLaw == pc = "run" /\ pos = 0 /\ cfg.k = "222" /\ cfg.s = 2 /\ ~cfg.ne =>
  \A r \in 1..Rows2 : T(o, cfg)[r] = [k \in 1..8 |-> (8 * (r - 1)) + k - 1]
=============================================================================
