-------------------------------- MODULE EvNet --------------------------------
(* Blocks, networks and decoders; batch and permutation independence; history *)
(* independence.                                                              *)
EXTENDS EvStruct, OpsModel, NetModel

-----------------------------------------------------------------------------
(* exact evaluation of programs on integer features and parameters            *)
(* par[p]: conv/deconv: [w |-> w[k][.][.], ci, co]; lin: [w |-> w[co][ci],    *)
(* b |-> bias or <<>>]; bn: [m, g, b] (y = (x - m) * g + b)                   *)
EvalI(o, ne, par, env, q) ==
  LET x  == env[q.x[1]]
      n  == Len(x)
      c  == IF n = 0 THEN 0 ELSE Len(x[1])
      v == CASE q.o = "id" -> x
        [] q.o = "relu" -> [i \in 1..n |-> [j \in 1..c |-> IF x[i][j] > 0 THEN x[i][j] ELSE 0]]
        [] q.o = "bn" -> LET b == par[q.p] IN [i \in 1..n |-> [j \in 1..c |-> ((x[i][j] - b.m[j]) * b.g[j]) + b.b[j]]]
        [] q.o = "lin" -> LET w == par[q.p] IN [i \in 1..n |-> [j \in 1..Len(w.w) |->
                             Dot(x[i], w.w[j]) + (IF Len(w.b) > 0 THEN w.b[j] ELSE 0)]]
        [] q.o = "add" -> LET m == Len(q.x) IN [i \in 1..n |-> [j \in 1..c |-> Sum([k \in 1..m |-> env[q.x[k]][i][j]])]]
        [] q.o = "cat" -> [i \in 1..n |-> Concat([k \in 1..Len(q.x) |-> env[q.x[k]][i]])]
        [] q.o = "conv" -> LET w == par[q.p] IN ConvLayer(o, q.d, q.k, q.s, ne, x, w.w, <<>>, w.ci, w.co)
        [] q.o = "deconv" -> LET w == par[q.p] IN DeconvLayer(o, q.d, q.k, q.s, ne, x, w.w, <<>>, w.ci, w.co)
        [] q.o = "maxpool" -> LET np == NumNe(o, q.d - 1)
                                  m == [j \in 1..np |-> [k \in 1..c |-> PoolMax(o, q.d, j, k, ne, x)]]
                              IN IF ne THEN m ELSE Pad(o, q.d - 1, m, c, 0)
  IN (q.y :> v) @@ env
EvalPlan(o, ne, par, x, plan) ==
  FoldLeft(LAMBDA env, q: EvalI(o, ne, par, env, q), [r \in {"in"} |-> x], plan)

BlkPlan(e) ==
  CASE e.kind = "res" -> ResBlock("b", "out", "in", e.d, e.ci, e.co, e.stride, 1)
    [] e.kind = "res2" -> ResBlock2("b", "out", "in", e.d, e.ci, e.co, e.stride, 1)
    [] e.kind = "blocks" -> ResBlocks("b", "out", "in", e.d, e.ci, e.co, e.num, e.sub, 1)
    [] e.kind = "cb" -> ConvBn("b", "out", "in", e.d, e.kernel, e.stride, e.co)
    [] e.kind = "cbr" -> ConvBnRelu("b", "out", "in", e.d, e.kernel, e.stride, e.co)
    [] e.kind = "dbr" -> DeconvBnRelu("b", "out", "in", e.d, e.kernel, e.stride, e.co)
    [] e.kind = "lb" -> LinBn("b", "out", "in", e.co)
    [] e.kind = "lbr" -> LinBnRelu("b", "out", "in", e.co)
    [] e.kind = "l" -> L("out", <<"in">>, "b.linear", 0, e.co, TRUE)
    [] e.kind = "fc" -> L("f1", <<"in">>, "b.fc", 0, e.co, FALSE) \o I("bn", "f2", <<"f1">>, "b.bn", 0) \o I("relu", "out", <<"f2">>, "", 0)
EvBlk(h, e) ==
  LET o == h[e.id]
      env == EvalPlan(o, e.ne, e.par, e.x.v, BlkPlan(e))
      y == env["out"]
  IN Keep(h, IF e.err # "" THEN {"block.raised"}
             ELSE IF ~IsShape(e.out, <<Len(y), e.co>>) THEN {"block.shape"}
             ELSE Chk(e.out.v = y, "block." \o e.kind))

-----------------------------------------------------------------------------
(* recorded reals: flattened sequences in a common power-of-two unit          *)
SeqClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], tol)
FlatClose(a, b, tol) == a.k = b.k /\ (a.k = "t" => a.sh = b.sh /\ SeqClose(a.v, b.v, tol))

\* output of the network against the execution of its program by the layer
\* operators
Shapes(e, h) ==
  LET o == h[e.id]
  IN CASE e.cfg.arch \in {"resnet", "lenet", "hrnet"} -> << <<o.bs, e.co>> >>
       [] e.cfg.arch \in {"segnet", "unet"} -> << <<e.np, e.co>> >>
       [] OTHER -> [i \in 1..(e.cfg.D - e.cfg.F + 1) |-> << Num(o, e.cfg.F + i - 1), 2 >>] \o << << NumNe(o, e.cfg.D), e.co >> >>
EvNetwork(h, e) ==
  LET sh == Shapes(e, h)
  IN Keep(h, IF e.err # "" THEN {"network.raised"}
             ELSE Chk(Len(e.out) = Len(sh) /\ \A i \in 1..Len(sh) : IsT(e.out[i]) /\ e.out[i].sh = sh[i], "network.shape")
                  \cup Chk(Len(e.ref) = Len(e.out) /\ \A i \in 1..Len(e.out) : FlatClose(e.out[i], e.ref[i], e.tol), "network.composition"))

\* the learnable parameters are exactly those of the program's layers, with
\* the shapes inferred along its registers (-1, -2: the given numbers of input
\* and output channels)
EvParams(h, e) ==
  LET sub(z) == IF z = 0 - 1 THEN e.ci ELSE IF z = 0 - 2 THEN e.co ELSE z
      want == { << e.want[i][1], [j \in 1..Len(e.want[i][2]) |-> sub(e.want[i][2][j])] >> : i \in 1..Len(e.want) }
      got  == { e.got[i] : i \in 1..Len(e.got) }
  IN Keep(h, IF e.err # "" THEN {"network.parameters.raised"}
             ELSE Chk(got = want /\ Cardinality(got) = Len(e.got), "network.parameters"))

\* two lists of recorded results that must agree (checkpointing, moved
\* objects, permuted clouds, repeated calls)
EvSame(h, e) ==
  Keep(h, IF e.err # "" THEN {e.what \o ".raised"}
          ELSE Chk(Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : FlatClose(e.a[i], e.b[i], e.tol), e.what))

\* the call is a function of its arguments: the first result is remembered
EvMemo(h, e) ==
  IF e.err # "" THEN Keep(h, {"memo.raised"})
  ELSE IF e.key \in DOMAIN h THEN Keep(h, Chk(FlatClose(e.out, h[e.key].out, e.tol), "history.result_changed"))
  ELSE Put(h, e.key, [out |-> e.out], {})

-----------------------------------------------------------------------------
(* batch independence: row groups of the merged result belong to the samples *)
EvBatch(h, e) ==
  LET o == h[e.id]
      B == Len(e.outs)
      rws(s) == CASE e.kind = "rows"  -> RowsOf(o, e.d, e.ne, s - 1)
                  [] e.kind = "batch" -> <<s>>
                  [] e.kind = "pts"   -> e.rows[s]
                  [] e.kind = "kids"  -> LET ps == RowsOf(o, e.d, TRUE, s - 1) IN ps
      n == LET f == [s \in 1..B |-> Len(rws(s))] IN Sum(f)
  IN Keep(h,
       IF e.err # "" THEN {"batch.raised"}
       ELSE IF ~(e.out.k = "t" /\ e.out.sh[1] = n) THEN {"batch.shape"}
       ELSE Chk(\A s \in 1..B : LET r == rws(s) IN
                  /\ IsT(e.outs[s]) /\ e.outs[s].sh = << Len(r) >> \o Tail(e.out.sh)
                  /\ \A i \in 1..Len(r) : SeqClose(e.outs[s].v[i], e.out.v[r[i]], e.tol), "batch." \o e.op))

-----------------------------------------------------------------------------
(* decoders.  e.logits[i]: recorded logits of depth full + i - 1 (rows of two  *)
(* values).  With update the octree is the full grid grown by the arg-max of   *)
(* the logits; values that agree up to rounding may go either way.            *)
DecFlags(lg, ch) ==
  [i \in 1..Len(lg) |-> IF Close(lg[i][1], lg[i][2], 1) THEN (IF i <= Len(ch) /\ ch[i] >= 0 THEN 1 ELSE 0)
                        ELSE IF lg[i][2] > lg[i][1] THEN 1 ELSE 0]
RECURSIVE DecGrow(_, _, _)
DecGrow(o, d, e) ==
  IF d > o.depth THEN [o |-> o, bad |-> {}]
  ELSE LET lg == e.logits[d - o.full + 1]
           ch == IF d + 1 <= Len(e.snap) /\ e.snap[d + 1].has THEN e.snap[d + 1].ch ELSE <<>>
       IN IF ~IsShape(lg, <<Num(o, d), 2>>) THEN [o |-> o, bad |-> {"decode.logit.rows"}]
          ELSE LET o1 == Split(o, d, DecFlags(lg.v, ch))
                   o2 == IF d < o.depth THEN ConstructNeigh(Grow(o1, d + 1), d + 1) ELSE o1
               IN DecGrow(o2, d + 1, e)
EvDecode(h, e) ==
  LET o0 == InitOctree(e.depth, e.full, e.bs)
      i0 == IF e.nbini THEN [o0 EXCEPT !.nb = [d \in 1..(e.depth + 1) |-> IF d - 1 <= e.full THEN NeighTable(o0, d - 1) ELSE <<>>]] ELSE o0
      g  == DecGrow(i0, e.full, e)
      o  == IF e.upd THEN g.o ELSE h[e.id]
      shp == IF ~e.upd
             THEN Chk(\A d \in e.full..e.depth : IsShape(e.logits[d - e.full + 1], <<Num(o, d), 2>>), "decode.logit.rows")
             ELSE g.bad
      v == Chk(Len(e.logits) = e.depth - e.full + 1, "decode.logit.layers")
  IN IF e.err # "" THEN Keep(h, {"decode.raised"})
     ELSE IF v # {} THEN Keep(h, v)
     ELSE IF shp # {} THEN Keep(h, shp)
     ELSE [h |-> IF e.upd THEN (e.id :> o) @@ h ELSE h,
           v |-> HeadVerdict(o, e.head) \cup SnapVerdict(o, e.snap)
                 \cup Chk(e.given, "decode.given_octree")
                 \cup Chk(IsShape(e.signal, <<NumNe(o, e.depth), e.co>>), "decode.signal.rows")
                 \cup Chk(\A i \in 1..Len(e.signal.v) : \A j \in 1..e.co : Abs(e.signal.v[i][j]) <= e.one + 1, "decode.signal.range")
                 \cup (IF e.upd THEN Chk(e.stored = e.signal, "decode.signal.stored")
                       ELSE Chk(e.stored = e.stored0, "decode.features_changed"))]

HandleNet(h, e) ==
  CASE e.e = "blk" -> EvBlk(h, e)
    [] e.e = "net" -> EvNetwork(h, e)
    [] e.e = "nparam" -> EvParams(h, e)
    [] e.e = "same" -> EvSame(h, e)
    [] e.e = "memo" -> EvMemo(h, e)
    [] e.e = "batch" -> EvBatch(h, e)
    [] e.e = "dec" -> EvDecode(h, e)
    [] OTHER -> Keep(h, {"unknown_event"})
=============================================================================
