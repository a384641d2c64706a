------------------------------ MODULE Session -------------------------------
(* A user session: a growing collection of octrees on which the public        *)
(* structural operations are applied in any order their preconditions allow.  *)
(* Every object is [o: abstract octree, v: deepest layer that is consistent   *)
(* with the layers above it, f: the layers with a current neighbour table,    *)
(* g: how it came about ("build", "init", "merge", "minit", "resplit"),       *)
(* m: 1 on the second device].                                                *)
EXTENDS OctreeModel, TLC
CONSTANTS Depth, Full, MaxObj
VARIABLES heap

C(c, i, j, d, k, a) == [c |-> c, i |-> i, j |-> j, d |-> d, k |-> k, a |-> a]

\* ---- the clouds a session may build from: sets of finest cells of one element
S == 2^Depth
Corner == << 0, 0, 0, 0 >>
Far == << 0, S - 1, S - 1, S - 1 >>
Mid(x, y, z) == << 0, (S \div 2) - x, (S \div 2) - y, (S \div 2) - z >>
Clouds == << { Corner }, { Far, Corner }, { Mid(0,0,0), Mid(1,0,0), Mid(1,1,1), Mid(0,1,0) },
             { << 0, 0, S - 1, 0 >>, << 0, S - 1, 0, 1 >>, Mid(0,0,1) } >>

\* ---- split patterns of a layer with n nodes
Flags(p, n) ==
  CASE p = "none" -> [i \in 1..n |-> 0]
    [] p = "all" -> [i \in 1..n |-> 1]
    [] p = "first" -> [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
    [] p = "last" -> [i \in 1..n |-> IF i = n THEN 1 ELSE 0]
    [] p = "alt" -> [i \in 1..n |-> IF (i % 3) = 2 THEN 1 ELSE 0]
    [] p = "ends" -> [i \in 1..n |-> IF (i % 8) \in {1, 0} /\ i < 20 THEN 1 ELSE 0]
Patterns == << "none", "first", "last", "alt", "ends", "all" >>

Obj(o, v, f, g, m) == [o |-> o, v |-> v, f |-> f, g |-> g, m |-> m]
O(i) == heap[i].o
Small(i, d) == Num(O(i), d) <= 64

\* ---- what may be called, as a sequence of commands per operation
Ix == [i \in 1..Len(heap) |-> i]
Seqq(S_) == TLCEval(SetToSeq(S_))
Room == Len(heap) < MaxObj
ObjDepth(P(_, _)) == { p \in (1..Len(heap)) \X (0..Depth) : P(p[1], p[2]) }

Builds == IF ~Room THEN <<>> ELSE [k \in 1..Len(Clouds) |-> C("build", 0, 0, Depth, "", << k >>)]
Inits == IF ~Room THEN <<>> ELSE << C("init", 0, 0, Full, "", << 1 >>), C("init", 0, 0, Full, "", << 2 >>) >>
CanMerge(i) == heap[i].g \in {"build", "init"} /\ heap[i].v = Depth /\ O(i).bs = 1
Merges ==
  IF ~Room THEN <<>>
  ELSE LET p == { q \in (1..Len(heap)) \X (0..Len(heap)) :
                    /\ CanMerge(q[1])
                    /\ q[2] > 0 => CanMerge(q[2]) /\ heap[q[2]].g = heap[q[1]].g /\ heap[q[2]].m = heap[q[1]].m }
           s == Seqq(p)
       IN [k \in 1..Len(s) |-> LET q == s[k] IN C("merge", q[1], q[2], 0, "", << >>)]
Splits ==
  LET p == ObjDepth(LAMBDA i, d : d >= Full /\ d <= heap[i].v /\ Small(i, d))
      s == Seqq(p)  n == Len(Patterns)
  IN [k \in 1..(Len(s) * n) |->
        LET q == s[((k - 1) \div n) + 1]
        IN C("split", q[1], 0, q[2], Patterns[((k - 1) % n) + 1], << >>)]
Grows ==
  LET p == ObjDepth(LAMBDA i, d : d = heap[i].v + 1 /\ d > Full /\ NumNe(O(i), d - 1) <= 40)
      s == Seqq(p)
  IN [k \in 1..Len(s) |-> C("grow", s[k][1], 0, s[k][2], "", << IF (s[k][2] - 1) \in heap[s[k][1]].f THEN 1 ELSE 0 >>)]
CNeigh ==
  LET p == ObjDepth(LAMBDA i, d : d >= (IF Full = 0 THEN 0 ELSE 1) /\ d <= heap[i].v /\ Small(i, d) /\ (d <= Full \/ (d - 1) \in heap[i].f))
      s == Seqq(p)
  IN [k \in 1..Len(s) |-> C("cneigh", s[k][1], 0, s[k][2], "", << >>)]
CNeighs ==
  LET p == { i \in 1..Len(heap) : heap[i].v = Depth /\ Small(i, Depth) }
      s == Seqq(p)
  IN [k \in 1..Len(s) |-> C("cneighs", s[k], 0, 0, "", << >>)]
Kernels == << "333", "222", "311", "131", "113", "331", "313", "133" >>
Neighs ==
  LET p == ObjDepth(LAMBDA i, d : d >= 1 /\ d \in heap[i].f /\ d <= heap[i].v /\ Small(i, d))
      s == Seqq(p)
  IN [k \in 1..(Len(s) * 32) |->
        LET q == s[((k - 1) \div 32) + 1]  m == (k - 1) % 32
        IN C("neigh", q[1], 0, q[2], Kernels[(m \div 4) + 1], << (m % 2) + 1, (m \div 2) % 2 >>)]
Layers ==
  LET p == ObjDepth(LAMBDA i, d : d <= heap[i].v)
      s == Seqq(p)
  IN [k \in 1..(2 * Len(s)) |-> LET q == s[((k - 1) \div 2) + 1] IN C("layer", q[1], 0, q[2], "", << (k - 1) % 2 >>)]
Searches ==
  LET p == ObjDepth(LAMBDA i, d : d <= heap[i].v)
      s == Seqq(p)
  IN [k \in 1..(2 * Len(s)) |-> LET q == s[((k - 1) \div 2) + 1] IN C("search", q[1], 0, q[2], "", << (k - 1) % 2 >>)]
Exports ==
  LET p == { i \in 1..Len(heap) : heap[i].v = Depth /\ heap[i].g # "resplit" }
      s == Seqq(p)
  IN [k \in 1..(2 * Len(s)) |-> C("topoints", s[((k - 1) \div 2) + 1], 0, 0, "", << (k - 1) % 2 >>)]
Feats ==
  LET p == { i \in 1..Len(heap) : heap[i].g \in {"build", "merge"} /\ heap[i].v = Depth }
      s == Seqq(p)
  IN [k \in 1..Len(s) |-> C("feat", s[k], 0, 0, "", << >>)]
Moves ==
  IF ~Room THEN <<>>
  ELSE LET s == Seqq({ i \in 1..Len(heap) : heap[i].v = Depth /\ heap[i].g # "resplit" })
       IN [k \in 1..Len(s) |-> C("move", s[k], 0, 0, "", << 1 - heap[s[k]].m >>)]

\* ---- effect
Upto(f, d) == { x \in f : x <= d }
Eff(h, c) ==
  LET x == h[c.i]
      upd(y) == [h EXCEPT ![c.i] = y]
  IN CASE c.c = "build" -> Append(h, Obj(BuildOctree(Clouds[c.a[1]], Depth, Full, 1), Depth, {}, "build", 0))
       [] c.c = "init" -> Append(h, Obj(InitOctree(Depth, Full, c.a[1]), Full, 0..Full, "init", 0))
       [] c.c = "merge" -> Append(h, Obj(Merge(IF c.j = 0 THEN << h[c.i].o >> ELSE << h[c.i].o, h[c.j].o >>), Depth, {},
                                         IF h[c.i].g = "build" THEN "merge" ELSE "minit", x.m))
       [] c.c = "split" -> upd([x EXCEPT !.o = Split(x.o, c.d, Flags(c.k, Num(x.o, c.d))), !.v = c.d, !.f = Upto(x.f, c.d),
                                         !.g = IF x.g = "init" THEN "init" ELSE "resplit"])
       [] c.c = "grow" -> upd([x EXCEPT !.o = Grow(x.o, c.d), !.v = c.d, !.f = Upto(x.f, c.d - 1) \cup (IF c.a[1] = 1 THEN {c.d} ELSE {})])
       [] c.c = "cneigh" -> upd([x EXCEPT !.f = @ \cup {c.d}])
       [] c.c = "cneighs" -> upd([x EXCEPT !.f = Min2(Full, 1)..Depth])
       [] c.c = "move" -> Append(h, [x EXCEPT !.m = c.a[1]])
       [] OTHER -> h

\* ---- properties of every reachable session
ObjOk(x) == /\ \A d \in 0..x.v : WellFormedAt(x.o, d)
            /\ x.f \subseteq 0..x.v
            /\ \A d \in 0..Full : Num(x.o, d) = x.o.bs * (8^d)
            /\ \A d \in 0..x.v : \A b \in 0..(x.o.bs - 1) : d <= Full => \E i \in 1..Num(x.o, d) : Layer(x.o, d).n[i][1] = b
SessionOk == \A i \in 1..Len(heap) : ObjOk(heap[i])

\* adjacency is symmetric, and a table entry is exactly the adjacent cell
NeighOk(o, d) ==
  LET n == Layer(o, d).n
      t == TLCEval([i \in 1..Len(n) |-> TLCEval([k \in 1..27 |-> Find(o, d, Shift(n[i], k - 1))])])
      cells == TLCEval({ n[i] : i \in 1..Len(n) })
  IN \A i \in 1..Len(t) : \A k \in 1..27 :
       /\ t[i][k] >= 0 => /\ n[t[i][k] + 1] = Shift(n[i], k - 1)
                          /\ t[t[i][k] + 1][28 - k] = i - 1
       /\ t[i][k] < 0 => Shift(n[i], k - 1) \notin cells
       /\ t[i][14] = i - 1
TablesOk == \A i \in 1..Len(heap) : \A d \in heap[i].f : NeighOk(heap[i].o, d)

\* merging built octrees is building the batch of their clouds
MergeIsBuild ==
  \A i, j \in 1..Len(Clouds) :
    LET o1 == BuildOctree(Clouds[i], Depth, Full, 1)
        o2 == BuildOctree(Clouds[j], Depth, Full, 1)
        lab(S_, b) == { << b, c[2], c[3], c[4] >> : c \in S_ }
    IN Merge(<< o1, o2 >>) = BuildOctree(lab(Clouds[i], 0) \cup lab(Clouds[j], 1), Depth, Full, 2)
\* growing by the occupancy of an octree reproduces it
RECURSIVE Regrow(_, _, _)
Regrow(o, src, d) ==
  LET o1 == Split(o, d, [i \in 1..Num(o, d) |-> IF Layer(src, d).ne[i] THEN 1 ELSE 0])
  IN IF d = Depth THEN o1 ELSE Regrow(Grow(o1, d + 1), src, d + 1)
RegrowIsBuild ==
  \A i \in 1..Len(Clouds) :
    LET o == BuildOctree(Clouds[i], Depth, Full, 1) IN Regrow(InitOctree(Depth, Full, 1), o, Full) = o
=============================================================================
