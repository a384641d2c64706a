----------------------------- MODULE GradDesign -----------------------------
(* Reverse-mode differentiation over a tape, as the operators of EvGrad have  *)
(* to compose: every program of at most MaxLen operators (padding, pooling,   *)
(* unpooling, upsampling, convolution, skip connections) on every small       *)
(* octree is run forwards and then walked back entry by entry.  On the way    *)
(* back the pairing of gradient and value is conserved, and what arrives at   *)
(* the input is the exact derivative.                                         *)
EXTENDS EvGrad, TLC
CONSTANTS Depth, MaxCells, MaxBatch, MaxLen, Rnd
VARIABLES pc, o, ne, x, at, tape, held, g, gh, y0, gy

RECURSIVE UpTo2(_, _)
UpTo2(k, S_) == IF k = 0 THEN {{}} ELSE LET t == UpTo2(k - 1, S_) IN t \cup UNION { { u \cup {c} : c \in S_ } : u \in t }
Grid2(bs) == { << b, i, j, k >> : b \in 0..(bs - 1), i \in 0..(2^Depth - 1), j \in 0..(2^Depth - 1), k \in 0..(2^Depth - 1) }
Sub2(S_) == IF Rnd THEN { c \in S_ : (5 * c[1] + 3 * c[2] + 7 * c[3] + c[4] + c[2] * c[4]) % 7 = 0 } ELSE S_
X0(n) == [i \in 1..n |-> (((i * 7) + 3) % 17) - 8]
GY(n) == [i \in 1..n |-> (((i * 5) + 2) % 9) - 4]
Dot2(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]], Len(a))
vars == << pc, o, ne, x, at, tape, held, g, gh, y0, gy >>
NoO == [depth |-> -1]

Init == /\ pc = "cell" /\ o = NoO /\ ne \in BOOLEAN /\ x = << >> /\ at \in [full : 0..1, bs : 1..MaxBatch]
        /\ tape = << >> /\ held = << >> /\ g = << >> /\ gh = << >> /\ y0 = 0 /\ gy = << >>
Choose ==
  /\ pc = "cell"
  /\ \E c \in Sub2(Grid2(at.bs)) : \E u \in UpTo2(MaxCells - 1, Sub2(Grid2(at.bs))) :
       LET oo == ConstructAllNeigh(BuildOctree({c} \cup u, Depth, at.full, at.bs))
       IN o' = oo /\ x' = X0(NumRows(oo, Depth, ne))
  /\ at' = [d |-> Depth, ne |-> ne]
  /\ pc' = "fwd" /\ UNCHANGED << ne, tape, held, g, gh, y0, gy >>

Ev(op, d, m, k, s, t) == [op |-> op, id |-> 1, d |-> d, ne |-> m, kernel |-> k, stride |-> s, t |-> t, to |-> 1, q |-> << >>, den |-> 8,
                       osize |-> 0, index |-> << >>, x |-> [v |-> [i \in 1..Len(x) |-> << x[i] >>]],
                       ind |-> [i \in 1..NumNe(o, d) |-> << (i * 3) % 8 >>]]
\* the operators that are possible here: << name, taps, depth after, mode after >>
Ops ==
  LET d == at.d  m == at.ne  h == << o >>
  IN (IF m THEN { << "pad", TapsOf(h, Ev("pad", d, m, "333", 1, d)), d, FALSE >> }
           ELSE { << "depad", TapsOf(h, Ev("depad", d, m, "333", 1, d)), d, TRUE >> })
     \cup (IF d >= 1 THEN { << "conv", ConvTaps(o, d, m, "333", 1, "conv"), d, m >>, << "down", ConvTaps(o, d, m, "222", 2, "down"), d - 1, m >>,
                            << "avg", TapsOf(h, Ev("avgpool", d, m, "222", 2, d)), d - 1, m >> } ELSE {})
     \cup (IF d >= 1 /\ \A j \in 1..NumNe(o, d - 1) : Len(LiveKids(o, d, j, m)) > 0
           THEN { << "max", TapsAt(h, Ev("maxpool", d, m, "333", 1, d), 1), d - 1, m >> } ELSE {})
     \cup (IF d < o.depth THEN { << "unpool", TapsAt(h, Ev("unpool", d, m, "333", 1, d), 1), d + 1, m >>,
                                 << "up", TapsOf(h, Ev("upnearest", d, m, "333", 1, d + 1)), d + 1, m >> } ELSE {})
Forward ==
  /\ pc = "fwd" /\ Len(tape) < MaxLen
  /\ \/ \E p \in Ops :
          /\ tape' = Append(tape, [k |-> "op", name |-> p[1], taps |-> p[2], xin |-> x, at |-> at])
          /\ x' = App(p[2], x) /\ at' = [d |-> p[3], ne |-> p[4]] /\ held' = held
     \/ /\ held = << >>                                                 \* the start of a skip connection
        /\ tape' = Append(tape, [k |-> "save", name |-> "save", taps |-> << >>, xin |-> x, at |-> at])
        /\ held' = << [x |-> x, at |-> at] >> /\ UNCHANGED << x, at >>
     \/ /\ held # << >> /\ held[1].at = at /\ tape[Len(tape)].k # "save"   \* and its end
        /\ tape' = Append(tape, [k |-> "add", name |-> "add", taps |-> << >>, xin |-> x, at |-> at])
        /\ x' = [i \in 1..Len(x) |-> x[i] + held[1].x[i]] /\ held' = << >> /\ at' = at
  /\ UNCHANGED << pc, o, ne, g, gh, y0, gy >>
Turn ==
  /\ pc = "fwd" /\ tape # << >> /\ held = << >>
  /\ g' = GY(Len(x)) /\ gy' = GY(Len(x)) /\ y0' = Dot2(GY(Len(x)), x)
  /\ pc' = "bwd" /\ held' = << tape >>                                   \* the whole tape, for the exactness check
  /\ UNCHANGED << o, ne, x, at, tape, gh >>
Back ==
  /\ pc = "bwd" /\ tape # << >>
  /\ LET e == tape[Len(tape)]
     IN /\ x' = e.xin /\ at' = e.at /\ tape' = SubSeq(tape, 1, Len(tape) - 1)
        /\ CASE e.k = "op" -> g' = AdjI(e.taps, g, Len(e.xin)) /\ gh' = gh
             [] e.k = "add" -> g' = g /\ gh' = << g >>
             [] e.k = "save" -> g' = [i \in 1..Len(g) |-> g[i] + gh[1][i]] /\ gh' = << >>
  /\ UNCHANGED << pc, o, ne, held, y0, gy >>
Next == Choose \/ Forward \/ Turn \/ Back
Spec == Init /\ [][Next]_vars

\* value held by the skip connection that is open at this point of the walk back
OpenHeld == LET sv == SelectSeq(tape, LAMBDA e: e.k = "save") IN sv[Len(sv)].xin
Conserved == pc = "bwd" => Dot2(g, x) + (IF gh = << >> THEN 0 ELSE Dot2(gh[1], OpenHeld)) = y0
\* the program with the choices of this run, on any input
RunOn(tp, v) ==
  FoldLeft(LAMBDA st, e: CASE e.k = "op" -> << App(e.taps, st[1]), st[2] >>
                           [] e.k = "save" -> << st[1], st[1] >>
                           [] e.k = "add" -> << [i \in 1..Len(st[1]) |-> st[1][i] + st[2][i]], st[2] >>,
           << v, v >>, tp)[1]
ExactOk == pc = "bwd" /\ tape = << >> =>
  \A i \in 1..Len(x) : g[i] = Dot2(gy, RunOn(held[1], [j \in 1..Len(x) |-> IF j = i THEN 1 ELSE 0]))
ShapesOk == pc \in {"fwd", "bwd"} => Len(x) = NumRows(o, at.d, at.ne) /\ (pc = "bwd" => Len(g) = Len(x))
\* padding and unpadding, unpooling and reading the chosen child, are each other's adjoint / inverse
InverseOk == pc = "fwd" /\ tape = << >> =>
  LET h == << o >> d == at.d
      tr(tps, n) == [i \in 1..n |-> { << j, q >> \in (1..Len(tps)) \X (1..8) : q <= Len(tps[j]) /\ tps[j][q][1] = i }]
      pd == TapsOf(h, Ev("pad", d, TRUE, "333", 1, d))
      dp == TapsOf(h, Ev("depad", d, FALSE, "333", 1, d))
  IN /\ \A j \in 1..Len(dp) : pd[dp[j][1][1]] = << << j, 1 >> >>
     /\ \A i \in 1..NumNe(o, d) : Cardinality(tr(pd, NumNe(o, d))[i]) = 1
     /\ LET av == TapsOf(h, Ev("avgpool", d, ne, "222", 2, d))
            up == TapsOf(h, Ev("upnearest", d - 1, ne, "333", 1, d))
        IN d >= 1 => \A j \in 1..Len(av) : \A q \in 1..Len(av[j]) : up[av[j][q][1]] = << << j, 1 >> >>
=============================================================================
