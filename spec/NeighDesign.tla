---------------------------- MODULE NeighDesign -----------------------------
(* Neighbour tables layer by layer: the table of a layer is computed from the *)
(* table of its parent layer and the child links alone (through the 8 x 27    *)
(* look-up "which parent, which child"), and it has to be the table defined   *)
(* by geometry.  Layers are chosen freely, so every octree up to the bound    *)
(* is explored, in every batch; the kernel, stride-2 and non-empty views of   *)
(* every table are derived the same way.                                      *)
EXTENDS OctreeModel, TLC
CONSTANTS MaxDepth, MaxBatch, MaxSplit, Big
VARIABLES o, d, nb

\* child s (0..7) of a cell looks in direction k (0..26): per axis, half the
\* position reached gives the parent's direction, its parity the child there
Ax(s, k, a) == LET sb == (s \div (4 \div (2^a))) % 2
                   kb == ((k \div (9 \div (3^a))) % 3) - 1
               IN sb + kb + 2                                   \* 1..4
LutParent == TLCEval([s \in 0..7 |-> [k \in 0..26 |->
  9 * (Ax(s, k, 0) \div 2) + 3 * (Ax(s, k, 1) \div 2) + (Ax(s, k, 2) \div 2)]])
LutChild == TLCEval([s \in 0..7 |-> [k \in 0..26 |->
  4 * (Ax(s, k, 0) % 2) + 2 * (Ax(s, k, 1) % 2) + (Ax(s, k, 2) % 2)]])

\* the rows of the split parents, spread to their eight children
Propagate(layer, tab) ==
  TLCEval([j \in 1..(8 * Len(layer.p)) |->
    LET row == tab[layer.p[((j - 1) \div 8) + 1]]
        s   == (j - 1) % 8
    IN [k \in 1..27 |->
          LET q == row[LutParent[s][k - 1] + 1]
          IN IF q < 0 THEN -1
             ELSE IF layer.rk[q + 1] < 0 THEN -1
             ELSE (8 * layer.rk[q + 1]) + LutChild[s][k - 1]]])

\* the root layer: only itself
RootTable(bs) == [i \in 1..bs |-> [k \in 1..27 |-> IF k = 14 THEN i - 1 ELSE -1]]

Flags(n, S_) == [i \in 1..n |-> IF i \in S_ THEN 1 ELSE 0]
RECURSIVE Subs(_, _)
Subs(k, n) == IF k = 0 THEN {{}} ELSE LET t == Subs(k - 1, n) IN t \cup UNION { { u \cup {i} : i \in 1..n } : u \in t }
\* which sets of nodes split: all subsets of a small layer, few or all but few of a large one
SplitSets(n) == IF n <= 8 THEN (SUBSET (1..n)) \ {{}}
              ELSE LET t == Subs(MaxSplit, n) \ {{}} IN t \cup (IF Big THEN { (1..n) \ u : u \in t } ELSE {})

Init == \E bs \in 1..MaxBatch : o = InitOctree(MaxDepth, 0, bs) /\ d = 0 /\ nb = RootTable(bs)
Next == /\ d < MaxDepth
        /\ \E S_ \in SplitSets(Num(o, d)) :
             LET os == Split(o, d, Flags(Num(o, d), S_))
             IN /\ o' = Grow(os, d + 1)
                /\ nb' = Propagate(Layer(os, d), nb)
        /\ d' = d + 1
Spec == Init /\ [][Next]_<< o, d, nb >>

TableOk == nb = NeighTable(o, d)
\* symmetric, centred, never across batch elements
Opp(k) == 28 - k
Shape == \A i \in 1..Len(nb) :
  /\ nb[i][14] = i - 1
  /\ \A k \in 1..27 : nb[i][k] >= 0 =>
       /\ nb[nb[i][k] + 1][Opp(k)] = i - 1
       /\ Layer(o, d).n[nb[i][k] + 1][1] = Layer(o, d).n[i][1]
\* a 2x2x2 window of a first sibling is its own family: pooling and stride-2 convolution see the eight children
Family == d >= 1 => \A i \in 1..(Len(nb) \div 8) :
  [k \in 1..8 |-> nb[(8 * (i - 1)) + 1][KernelOffsets("222")[k] + 1]] = [k \in 1..8 |-> (8 * (i - 1)) + k - 1]
WellFormed == \A e \in 0..d : WellFormedAt(o, e)
=============================================================================
