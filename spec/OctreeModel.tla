---------------------------- MODULE OctreeModel -----------------------------
(* The abstract octree: its state, its transitions and its queries.           *)
(*                                                                            *)
(* A cell is <<b, x, y, z>>.  A layer is a sequence of cells together with    *)
(* the set of those that are non-empty ("split").  Everything else a user     *)
(* can observe (keys, child links, counts, neighbour tables, search results)  *)
(* is a function of that state and is defined here from geometry, not from    *)
(* the algorithms of the implementation.                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Morton

-----------------------------------------------------------------------------
(* layers *)

ChildCell(c, i) == << c[1], 2*c[2] + (i \div 4), 2*c[3] + ((i \div 2) % 2),
                      2*c[4] + (i % 2) >>

\* child link of every node: its rank among the non-empty nodes, or -1
Ranks(ne) ==
  FoldLeft(LAMBDA a, b: << a[1] + (IF b THEN 1 ELSE 0),
                           Append(a[2], IF b THEN a[1] ELSE -1) >>,
           << 0, <<>> >>, ne)[2]

NoLayer == [has |-> FALSE, n |-> <<>>, ne |-> <<>>, rk |-> <<>>, p |-> <<>>]

MkLayer(nodes, ne) ==
  LET pos == SelectSeq([i \in 1..Len(nodes) |-> i], LAMBDA i: ne[i])
  IN [has |-> TRUE,
      n   |-> nodes,           \* cells in storage order
      ne  |-> ne,              \* non-empty flags
      rk  |-> Ranks(ne),       \* child links
      p   |-> pos]             \* 1-based positions of the non-empty cells

Trues(n) == [i \in 1..n |-> TRUE]

\* the eight children of every non-empty cell, in order
ChildNodes(layer) ==
  [j \in 1..(8 * Len(layer.p)) |->
     ChildCell(layer.n[layer.p[(j - 1) \div 8 + 1]], (j - 1) % 8)]

Roots(bs) == [b \in 1..bs |-> <<b - 1, 0, 0, 0>>]

RECURSIVE FullNodes(_, _)
FullNodes(bs, d) == IF d = 0 THEN Roots(bs)
                    ELSE LET f == FullNodes(bs, d - 1)
                         IN [j \in 1..(8 * Len(f)) |->
                               ChildCell(f[(j - 1) \div 8 + 1], (j - 1) % 8)]
FullLayer(bs, d) == LET f == FullNodes(bs, d) IN MkLayer(f, Trues(Len(f)))

-----------------------------------------------------------------------------
(* octrees *)

NoSig == [has |-> FALSE]

\* a fresh octree without any layer
NewOctree(depth, full, bs) ==
  [depth |-> depth, full |-> full, bs |-> bs,
   L   |-> [d \in 1..(depth + 1) |-> NoLayer],
   nb  |-> [d \in 1..(depth + 1) |-> <<>>],   \* 3x3x3 tables, once constructed
   sig |-> NoSig]

Layer(o, d) == o.L[d + 1]
Num(o, d)   == Len(o.L[d + 1].n)
NumNe(o, d) == Len(o.L[d + 1].p)

\* the layers of the octree whose finest occupied cells are `cells`
Occ(cells, s) == { << c[1], c[2] \div s, c[3] \div s, c[4] \div s >> : c \in cells }

RECURSIVE BuildR(_, _, _, _, _)
BuildR(cells, depth, full, d, acc) ==
  IF d > depth THEN acc
  ELSE LET nodes == IF d = 0 THEN acc.roots ELSE ChildNodes(acc.L[d])
           occ   == Occ(cells, 2^(depth - d))
           ne    == IF d < full THEN Trues(Len(nodes))
                    ELSE [i \in 1..Len(nodes) |-> nodes[i] \in occ]
       IN BuildR(cells, depth, full, d + 1,
                 [acc EXCEPT !.L = Append(@, MkLayer(nodes, ne))])

BuildOctree(cells, depth, full, bs) ==
  [NewOctree(depth, full, bs) EXCEPT
     !.L = BuildR(cells, depth, full, 0, [roots |-> Roots(bs), L |-> <<>>]).L]

GrowFull(o, d) == [o EXCEPT !.L[d + 1] = FullLayer(o.bs, d)]

RECURSIVE InitFullR(_, _)
InitFullR(o, d) == IF d > o.full THEN o ELSE InitFullR(GrowFull(o, d), d + 1)
InitOctree(depth, full, bs) == InitFullR(NewOctree(depth, full, bs), 0)

\* flags: one integer per node, 0 = empty; if none is split the first one is
SplitLayer(layer, flags) ==
  LET ne0 == [i \in 1..Len(layer.n) |-> flags[i] # 0]
      any == \E i \in 1..Len(layer.n) : ne0[i]
      ne  == IF any THEN ne0 ELSE [ne0 EXCEPT ![1] = TRUE]
  IN MkLayer(layer.n, ne)
Split(o, d, flags) == [o EXCEPT !.L[d + 1] = SplitLayer(@, flags)]

Grow(o, d) == LET c == ChildNodes(o.L[d])
              IN [o EXCEPT !.L[d + 1] = MkLayer(c, Trues(Len(c)))]

\* batch-labelled disjoint union of single-element octrees
RECURSIVE CatNodes(_, _, _)
CatNodes(os, d, i) ==
  IF i > Len(os) THEN <<>>
  ELSE [j \in 1..Len(os[i].L[d + 1].n) |->
          LET c == os[i].L[d + 1].n[j] IN <<i - 1, c[2], c[3], c[4]>>]
       \o CatNodes(os, d, i + 1)
RECURSIVE CatNe(_, _, _)
CatNe(os, d, i) == IF i > Len(os) THEN <<>>
                   ELSE os[i].L[d + 1].ne \o CatNe(os, d, i + 1)
Merge(os) ==
  [NewOctree(os[1].depth, os[1].full, Len(os)) EXCEPT
     !.L = [k \in 1..(os[1].depth + 1) |->
              MkLayer(CatNodes(os, k - 1, 1), CatNe(os, k - 1, 1))]]

-----------------------------------------------------------------------------
(* queries *)

\* 0-based position of a cell in its layer, -1 if the layer does not have it;
\* found by walking down from the root through split parents
RECURSIVE FindR(_, _, _, _, _, _)
FindR(o, d, b, x, y, z) ==
  IF d = 0 THEN b
  ELSE LET p == FindR(o, d - 1, b, x \div 2, y \div 2, z \div 2)
       IN IF p < 0 THEN -1
          ELSE LET r == o.L[d].rk[p + 1]
               IN IF r < 0 THEN -1
                  ELSE 8 * r + 4 * (x % 2) + 2 * (y % 2) + (z % 2)

Find(o, d, c) ==
  IF c[1] < 0 \/ c[1] >= o.bs \/ ~InGrid(c, d) THEN -1
  ELSE FindR(o, d, c[1], c[2], c[3], c[4])

\* position among the non-empty cells
FindNe(o, d, c) == LET i == Find(o, d, c) IN IF i < 0 THEN -1 ELSE o.L[d + 1].rk[i + 1]

FindIn(o, d, c, nempty) == IF nempty THEN FindNe(o, d, c) ELSE Find(o, d, c)

\* the cells a feature tensor of this layer has rows for
Rows(o, d, nempty) ==
  IF nempty THEN [i \in 1..Len(o.L[d + 1].p) |-> o.L[d + 1].n[o.L[d + 1].p[i]]]
  ELSE o.L[d + 1].n
NumRows(o, d, nempty) == IF nempty THEN NumNe(o, d) ELSE Num(o, d)

\* ---- neighbourhoods
Offset(k) == << (k \div 9) - 1, ((k \div 3) % 3) - 1, (k % 3) - 1 >>   \* k in 0..26

Shift(c, k) == LET f == Offset(k)
               IN << c[1], c[2] + f[1], c[3] + f[2], c[4] + f[3] >>

\* the offsets of a kernel shape <<kx, ky, kz>>: extent 3 is -1..1, 2 is 0..1,
\* 1 is 0; x-major order
Ext(n) == IF n = 3 THEN <<-1, 0, 1>> ELSE IF n = 2 THEN <<0, 1>> ELSE <<0>>
KernelOf(kx, ky, kz) ==
  LET ex == Ext(kx)  ey == Ext(ky)  ez == Ext(kz)
  IN [i \in 1..(kx * ky * kz) |->
        LET a == (i - 1) \div (ky * kz)
            b == ((i - 1) \div kz) % ky
            c == (i - 1) % kz
        IN 9 * (ex[a + 1] + 1) + 3 * (ey[b + 1] + 1) + (ez[c + 1] + 1)]
KernelShapes == [
  k333 |-> <<3,3,3>>, k222 |-> <<2,2,2>>,
  k311 |-> <<3,1,1>>, k131 |-> <<1,3,1>>, k113 |-> <<1,1,3>>,
  k331 |-> <<3,3,1>>, k313 |-> <<3,1,3>>, k133 |-> <<1,3,3>> ]
KernelTable == [ s \in DOMAIN KernelShapes |->
  LET t == KernelShapes[s] IN KernelOf(t[1], t[2], t[3]) ]
KernelOffsets(name) == KernelTable["k" \o name]

\* the 3x3x3 table of a layer, from geometry
NeighTable(o, d) ==
  LET n == o.L[d + 1].n
  IN [i \in 1..Len(n) |-> [k \in 1..27 |-> Find(o, d, Shift(n[i], k - 1))]]
ConstructNeigh(o, d) == [o EXCEPT !.nb[d + 1] = NeighTable(o, d)]
RECURSIVE ConstructAllR(_, _)
ConstructAllR(o, d) == IF d > o.depth THEN o
                       ELSE ConstructAllR(ConstructNeigh(o, d), d + 1)
ConstructAllNeigh(o) == ConstructAllR(o, Min2(o.full, 1))

\* rows of the neighbourhood query
NeighRows(o, d, stride, nempty) ==
  IF stride = 2 THEN [i \in 1..(Num(o, d) \div 8) |-> 8 * (i - 1) + 1]
  ELSE IF nempty THEN o.L[d + 1].p
  ELSE [i \in 1..Num(o, d) |-> i]

\* reindex to the non-empty cells
ToNe(o, d, i, nempty) == IF i < 0 THEN -1
                         ELSE IF nempty THEN o.L[d + 1].rk[i + 1] ELSE i

GetNeigh(o, d, kernel, stride, nempty) ==
  LET ks == KernelOffsets(kernel)
      rs == NeighRows(o, d, stride, nempty)
      t  == o.nb[d + 1]
  IN [i \in 1..Len(rs) |->
       [k \in 1..Len(ks) |-> ToNe(o, d, t[rs[i]][ks[k] + 1], nempty)]]

-----------------------------------------------------------------------------
(* well-formedness: what every reachable octree satisfies *)

LayerSorted(layer) ==
  \A i \in 1..(Len(layer.n) - 1) : CellLess(layer.n[i], layer.n[i + 1])
LayerInGrid(o, d) ==
  \A i \in 1..Num(o, d) : InGrid(o.L[d + 1].n[i], d) /\ o.L[d + 1].n[i][1] \in 0..(o.bs - 1)
LinksOk(layer) ==
  /\ \A i \in 1..Len(layer.n) : layer.ne[i] <=> layer.rk[i] >= 0
  /\ \A i \in 1..Len(layer.p) : layer.rk[layer.p[i]] = i - 1
EightChildren(o, d) == Num(o, d) = 8 * NumNe(o, d - 1)
KeysAscend(layer) ==
  \A i \in 1..(Len(layer.n) - 1) : KeyLess(KeyOf(layer.n[i]), KeyOf(layer.n[i + 1]))
FindIsInverse(o, d) ==
  \A i \in 1..Num(o, d) : Find(o, d, o.L[d + 1].n[i]) = i - 1
WellFormedAt(o, d) ==
  /\ LayerSorted(Layer(o, d)) /\ KeysAscend(Layer(o, d)) /\ LayerInGrid(o, d)
  /\ LinksOk(Layer(o, d)) /\ FindIsInverse(o, d)
  /\ d > 0 => EightChildren(o, d)
=============================================================================
