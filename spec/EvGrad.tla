------------------------------- MODULE EvGrad --------------------------------
(* Back-propagation through the operators.  Every operator that is linear in  *)
(* its features (given the choice made by max pooling) is described by its    *)
(* taps: output row j reads input rows with integer weights over a common     *)
(* denominator.  The forward result and the gradient are both read off the    *)
(* same taps, so the gradient is the adjoint of what was computed.            *)
(* Tensors of higher rank are recorded as matrices (last axis: channels).     *)
EXTENDS EvNet, EvOps

NTap == << >>
One(i) == << << i, 1 >> >>
\* parent row (0: empty parent) of row j at depth d - 1 in the given mode
SplitOf(o, d, j, ne) == IF ne THEN j ELSE Layer(o, d - 1).rk[j] + 1
VoxCell(f, n) == << (f - 1) \div (n * n * n), ((f - 1) \div (n * n)) % n, ((f - 1) \div n) % n, (f - 1) % n >>
\* taps of the operators that read the same rows in every channel
TapsOf(h, e) ==
  LET o == h[e.id]  d == e.d
      t == TLCEval(Table(o, d, e.kernel, e.stride, e.ne))
      fnd(c) == LET r == FindIn(o, d, c, e.ne) IN IF r < 0 THEN NTap ELSE One(r + 1)
      lin(p, den) == LET st == Stencil(o, d, p, den, e.ne) IN [m \in 1..Len(st) |-> << st[m][1] + 1, st[m][2] >>]
      avg(r) == LET ks == SelectSeq(Idx(Len(t[r])), LAMBDA k: t[r][k] >= 0) IN [m \in 1..Len(ks) |-> << t[r][ks[m]] + 1, 1 >>]
      ones(s) == [m \in 1..Len(s) |-> << s[m], 1 >>]
      K == Len(KernelOffsets(e.kernel))
      kids(c, s) == << c[1], c[2] \div s, c[3] \div s, c[4] \div s >>
  IN CASE e.op = "pad"   -> [j \in 1..Num(o, d) |-> LET r == Layer(o, d).rk[j] IN IF r < 0 THEN NTap ELSE One(r + 1)]
       [] e.op = "depad" -> [j \in 1..NumNe(o, d) |-> One(Layer(o, d).p[j])]
       [] e.op = "col"   -> [j \in 1..(Len(t) * K) |-> LET q == t[((j - 1) \div K) + 1][((j - 1) % K) + 1] IN IF q < 0 THEN NTap ELSE One(q + 1)]
       [] e.op = "colT"  -> LET inc == Incoming(t, NumRows(o, d, e.ne))
                            IN [j \in 1..Len(inc) |-> [m \in 1..Len(inc[j]) |-> << ((inc[j][m][1] - 1) * K) + inc[j][m][2], 1 >>]]
       [] e.op = "avgpool" -> IF e.stride = 2 THEN [j \in 1..NumRows(o, d - 1, e.ne) |-> LET r == SplitOf(o, d, j, e.ne) IN IF r = 0 THEN NTap ELSE avg(r)]
                              ELSE [j \in 1..Len(t) |-> avg(j)]
       [] e.op = "gpool" -> [j \in 1..o.bs |-> ones(RowsOf(o, d, e.ne, j - 1))]
       [] e.op = "voxel" -> LET n == 2^d IN [j \in 1..(o.bs * n * n * n) |-> fnd(VoxCell(j, n))]
       [] e.op = "align" -> LET rs == Rows(h[e.to], d, e.ne) IN [j \in 1..Len(rs) |-> fnd(rs[j])]
       [] e.op = "nearest" -> [j \in 1..Len(e.q) |-> LET r == IF InBounds(e.q[j], d, e.den) THEN NearestRow(o, d, e.q[j], e.den, e.ne) ELSE -1
                                                     IN IF r < 0 THEN NTap ELSE One(r + 1)]
       [] e.op = "linear" -> [j \in 1..Len(e.q) |-> lin(e.q[j], e.den)]
       [] e.op = "upnearest" -> LET rs == Rows(o, e.t, e.ne) IN [j \in 1..Len(rs) |-> fnd(kids(rs[j], 2^(e.t - d)))]
       [] e.op = "uplinear" -> LET rs == Rows(o, e.t, e.ne)  s == 2^(e.t - d)
                               IN [j \in 1..Len(rs) |-> lin(<< rs[j][1], 2 * rs[j][2] + 1, 2 * rs[j][3] + 1, 2 * rs[j][4] + 1 >>, 2 * s)]
       [] e.op = "scatter" -> [j \in 1..e.osize |-> ones(SelectSeq(Idx(Len(e.index)), LAMBDA i: e.index[i] = j - 1))]
       [] OTHER -> << >>
\* taps that depend on the channel
TapsAt(h, e, c) ==
  LET o == h[e.id]  d == e.d
      best(r) == LET lk == LiveKids(o, d, r, e.ne)
                     row(m) == RowOf(o, d, lk[m], e.ne)
                     m == CHOOSE m \in 1..Len(lk) : \A k \in 1..Len(lk) : e.x.v[row(m)][c] >= e.x.v[row(k)][c]
                 IN IF Len(lk) = 0 THEN NTap ELSE One(row(m))
  IN CASE e.op = "maxpool" -> [j \in 1..NumRows(o, d - 1, e.ne) |-> LET r == SplitOf(o, d, j, e.ne) IN IF r = 0 THEN NTap ELSE best(r)]
       [] e.op = "unpool" ->
            LET rs == IF e.ne THEN Layer(o, d + 1).p ELSE Idx(Num(o, d + 1))
            IN [j \in 1..Len(rs) |-> LET p == ((rs[j] - 1) \div 8) + 1
                                     IN IF e.ind[p][c] # (rs[j] - 1) % 8 THEN NTap
                                        ELSE One(IF e.ne THEN p ELSE Layer(o, d).p[p])]
       [] OTHER -> << >>
PerChannel(e) == e.op \in {"maxpool", "unpool"}
Mean(e) == e.op \in {"avgpool", "gpool", "linear", "uplinear"}          \* weights are normalised
DenOf(e, tp) == IF Mean(e) THEN SumSeq([m \in 1..Len(tp) |-> tp[m][2]], Len(tp)) ELSE 1
Fwd(e, tp, c) == SumSeq([m \in 1..Len(tp) |-> tp[m][2] * e.x.v[tp[m][1]][c]], Len(tp))
\* gradient of channel c in fixed point
Adj(e, tps, c, n) ==
  FoldLeft(LAMBDA acc, j:
      FoldLeft(LAMBDA a, m: [a EXCEPT ![tps[j][m][1]] = @ + ((tps[j][m][2] * e.gy.v[j][c] * Scale) \div DenOf(e, tps[j]))],
               acc, Idx(Len(tps[j]))),
    [i \in 1..n |-> 0], Idx(Len(tps)))
Fan(tps) == Len(tps) + 4
EvFlow(h, e) ==
  LET C == e.x.sh[2]  n == e.x.sh[1]
      common == IF PerChannel(e) THEN << >> ELSE TLCEval(TapsOf(h, e))
      tps == TLCEval([c \in 1..C |-> IF PerChannel(e) THEN TLCEval(TapsAt(h, e, c)) ELSE common])
      J == Len(tps[1])
      good(c) ==
        LET a == TLCEval(Adj(e, tps[c], c, n))
        IN Chk(\A j \in 1..J : IF Len(tps[c][j]) = 0 THEN e.out.v[j][c] = 0
                               ELSE Near(e.out.v[j][c], Fwd(e, tps[c][j], c), DenOf(e, tps[c][j]), 2), "flow.forward_" \o e.op)
           \cup Chk(\A i \in 1..n : Close(e.gx.v[i][c], (e.np * a[i]) + (e.side * Scale),
                                           IF Mean(e) THEN e.np * 40 ELSE 0), "flow.backward_" \o e.op)
  IN Keep(h, IF ~IsShape(e.out, << J, C >>) THEN {"flow.shape_" \o e.op}
             ELSE IF ~IsShape(e.gx, e.x.sh) THEN {"flow.no_gradient_" \o e.op}
             ELSE UNION { good(c) : c \in 1..C })

\* group norm: y = w z + b, z = (x - mean) / sd over n elements of a sample and group:
\*   gx = (w gy - mean(w gy) - z mean(w gy z)) / sd;  gw = sum gy z;  gb = sum gy
EvNormFlow(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]  G == e.g  cpg == C \div e.g
      St(b, g) ==
        LET rs == RowsOf(o, e.d, e.ne, b)
            n == Len(rs) * cpg
            ch == [j \in 1..cpg |-> ((g - 1) * cpg) + j]
            at(f(_, _)) == SumSeq([m \in 1..Len(rs) |-> SumSeq([j \in 1..cpg |-> f(rs[m], ch[j])], cpg)], Len(rs))
            s1 == at(LAMBDA i, c: e.x.v[i][c])
            s2 == at(LAMBDA i, c: e.x.v[i][c] * e.x.v[i][c])
            V == n * s2 - s1 * s1
            k == ShiftFor(V, 0)
            r == Isqrt(V * (4^k))
            z(i, c) == LET a == (n * e.x.v[i][c] - s1) * (2^k)
                       IN ((a \div r) * Scale) + ((((a % r) * 64) \div r) * (Scale \div 64)) + (((((a % r) * 64) % r) * (Scale \div 64)) \div r)
            gw(i, c) == e.gy.v[i][c] * e.wt[c]
            Gs == at(gw)
            Hs == at(LAMBDA i, c: gw(i, c) * z(i, c))
            num(i, c) == (n * gw(i, c) * Scale) - (Gs * Scale) - (((z(i, c) \div 2) * (Hs \div 32)) \div 64)
            want(i, c) == ((num(i, c) \div r) * (2^k)) + (((num(i, c) % r) * (2^k)) \div r)
            tol(i, c) == (((n * 64 + 800) * (2^k)) \div r) + (Abs(want(i, c)) \div 64) + 16
        IN [rs |-> rs, ch |-> ch, flat |-> V = 0, bad |-> Len(rs) > 0 /\ V # 0 /\
              \E m \in 1..Len(rs) : \E j \in 1..cpg : ~Close(e.gx.v[rs[m]][ch[j]], want(rs[m], ch[j]), tol(rs[m], ch[j])),
            zs |-> IF Len(rs) = 0 \/ V = 0 THEN [j \in 1..cpg |-> 0]
                   ELSE [j \in 1..cpg |-> SumSeq([m \in 1..Len(rs) |-> e.gy.v[rs[m]][ch[j]] * z(rs[m], ch[j])], Len(rs))]]
      Sg == TLCEval([b \in 1..o.bs |-> TLCEval([g \in 1..G |-> TLCEval(St(b - 1, g))])])
      gOf(c) == ((c - 1) \div cpg) + 1
      jOf(c) == ((c - 1) % cpg) + 1
      solid(c) == \A b \in 1..o.bs : Len(Sg[b][gOf(c)].rs) > 0 => ~Sg[b][gOf(c)].flat
      wantw(c) == SumSeq([b \in 1..o.bs |-> Sg[b][gOf(c)].zs[jOf(c)]], o.bs)
      fan == SumSeq([i \in 1..e.x.sh[1] |-> 16], e.x.sh[1])
  IN Keep(h, IF ~IsShape(e.gx, e.x.sh) THEN {"norm.no_gradient"}
             ELSE Chk(\A b \in 1..o.bs : \A g \in 1..G : ~Sg[b][g].bad, "norm.grad_input")
                  \cup Chk(\A c \in 1..C : solid(c) => Close(e.gw.v[1][c], wantw(c), fan + (Abs(wantw(c)) \div 64) + 64), "norm.grad_weight")
                  \cup Chk(\A c \in 1..C : Close(e.gb.v[1][c], Scale * SumSeq([i \in 1..e.x.sh[1] |-> e.gy.v[i][c]], e.x.sh[1]), 2), "norm.grad_bias"))

\* drop path: the same factor forwards and backwards
EvDropFlow(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]
      ok(b) == LET rs == RowsOf(o, e.d, e.ne, b)
                   kept == Len(rs) > 0 /\ e.out.v[rs[1]][1] # 0
               IN \A m \in 1..Len(rs) : \A c \in 1..C :
                    IF kept THEN Near(e.gx.v[rs[m]][c], e.gy.v[rs[m]][c] * (IF e.scale THEN e.kd ELSE e.kn), e.kn, 2)
                    ELSE e.gx.v[rs[m]][c] = 0
  IN Keep(h, IF ~IsShape(e.gx, e.x.sh) THEN {"drop.no_gradient"}
             ELSE Chk(\A b \in 0..(o.bs - 1) : ok(b), "drop.grad_input"))

\* a whole network (or objective): along every direction tried, the inner product with the gradient (gi) is the
\* rate of change of the value, measured with finer and finer steps (ds); both in units of the larger one / 65536.
\* A direction is tried again at a nearby point when it disagrees: the kinks of relu and max pooling are rare,
\* a wrong gradient is wrong everywhere.
EvDeriv(h, e) ==
  LET agrees(t) == \E k \in 1..Len(t.ds) : Close(t.gi, t.ds[k], 330)
  IN Keep(h, Chk(\A i \in 1..Len(e.dirs) : \E m \in 1..Len(e.dirs[i].tries) : agrees(e.dirs[i].tries[m]), "deriv.rate")
             \cup Chk(e.val, "deriv.value_depends_on_nothing"))

\* ---------------------------------------------------------------- chains of operators
\* (an operator applied to one channel v; all weights are integers here)
WOf(op, k) == IF op = "avg" THEN 1 ELSE (((k * 3) + 1) % 5) - 2
ConvTaps(o, d, m, k, s, op) ==
  LET t == TLCEval(Table(o, d, k, s, m))
      row(r) == LET ks == SelectSeq(Idx(Len(t[r])), LAMBDA j: t[r][j] >= 0) IN [j \in 1..Len(ks) |-> << t[r][ks[j]] + 1, WOf(op, ks[j]) >>]
  IN IF s = 1 THEN [r \in 1..Len(t) |-> row(r)]
     ELSE [j \in 1..NumRows(o, d - 1, m) |-> LET r == SplitOf(o, d, j, m) IN IF r = 0 THEN NTap ELSE row(r)]
StepEv(st, v) == [op |-> IF st.op = "max" THEN "maxpool" ELSE IF st.op = "up" THEN "upnearest" ELSE st.op,
                  id |-> 1, d |-> st.d, ne |-> st.ne, kernel |-> "333", stride |-> 1, t |-> st.d + 1, ind |-> st.ind,
                  x |-> [v |-> [i \in 1..Len(v) |-> << v[i] >>]]]
StepTaps(o, st, v) ==
  CASE st.op = "conv" -> ConvTaps(o, st.d, st.ne, st.kernel, 1, "conv")
    [] st.op = "down" -> ConvTaps(o, st.d, st.ne, st.kernel, 2, "down")
    [] st.op = "avg"  -> ConvTaps(o, st.d, st.ne, "222", 2, "avg")
    [] st.op \in {"max", "unpool"} -> TapsAt(<< o >>, StepEv(st, v), 1)
    [] OTHER -> TapsOf(<< o >>, StepEv(st, v))
App(tps, v) == TLCEval([j \in 1..Len(tps) |-> SumSeq([q \in 1..Len(tps[j]) |-> tps[j][q][2] * v[tps[j][q][1]]], Len(tps[j]))])
AdjI(tps, w, n) ==
  FoldLeft(LAMBDA acc, j: FoldLeft(LAMBDA a, q: [a EXCEPT ![tps[j][q][1]] = @ + (tps[j][q][2] * w[j])], acc, Idx(Len(tps[j]))),
           [i \in 1..n |-> 0], Idx(Len(tps)))
\* forwards: the value, the one held by an open skip connection, and the tape of << kind, taps, rows before >>
ChainFwd(o, prog, v0) ==
  FoldLeft(LAMBDA s, st:
     CASE st.op = "save" -> [s EXCEPT !.held = s.v, !.tape = Append(@, << "save", NTap, Len(s.v) >>)]
       [] st.op = "add"  -> [s EXCEPT !.v = TLCEval([i \in 1..Len(s.v) |-> s.v[i] + s.held[i]]), !.tape = Append(@, << "add", NTap, Len(s.v) >>)]
       [] OTHER -> LET tp == TLCEval(StepTaps(o, st, s.v))
                   IN [s EXCEPT !.v = App(tp, s.v), !.tape = Append(@, << "op", tp, Len(s.v) >>)],
     [v |-> v0, held |-> << >>, tape |-> << >>], prog)
\* and back: << gradient, gradient owed to the start of the skip connection >>
ChainBack(tape, gy) ==
  FoldLeft(LAMBDA s, i: LET en == tape[Len(tape) + 1 - i]
                        IN CASE en[1] = "op"  -> << TLCEval(AdjI(en[2], s[1], en[3])), s[2] >>
                             [] en[1] = "add" -> << s[1], s[1] >>
                             [] OTHER         -> << TLCEval([k \in 1..Len(s[1]) |-> s[1][k] + s[2][k]]), << >> >>,
           << gy, << >> >>, Idx(Len(tape)))[1]
ColOf(m, c) == [i \in 1..Len(m) |-> m[i][c]]
EvChain(h, e) ==
  LET o == h[e.id]  C == e.x.sh[2]
      steps(c) == [i \in 1..Len(e.prog) |-> [e.prog[i] EXCEPT !.ind = [r \in 1..Len(@) |-> << @[r][c] >>]]]
      fw == TLCEval([c \in 1..C |-> TLCEval(ChainFwd(o, steps(c), ColOf(e.x.v, c)))])
      good(c) == Chk(ColOf(e.out.v, c) = fw[c].v, "chain.forward")
                 \cup Chk(ColOf(e.gx.v, c) = ChainBack(fw[c].tape, ColOf(e.gy.v, c)), "chain.backward")
  IN Keep(h, IF ~IsShape(e.out, << Len(fw[1].v), C >>) THEN {"chain.shape"}
             ELSE IF ~IsShape(e.gx, e.x.sh) THEN {"chain.no_gradient"}
             ELSE UNION { good(c) : c \in 1..C })

HandleGrad(h, e) ==
  CASE e.e = "flow"     -> EvFlow(h, e)
    [] e.e = "chain"    -> EvChain(h, e)
    [] e.e = "normflow" -> EvNormFlow(h, e)
    [] e.e = "dropflow" -> EvDropFlow(h, e)
    [] e.e = "deriv"    -> EvDeriv(h, e)
    [] OTHER -> Keep(h, {"unknown_event"})
=============================================================================
