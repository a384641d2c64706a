---------------------------- MODULE BuildDesign -----------------------------
(* The bottom-up construction of an octree from the sorted keys of its        *)
(* finest occupied cells, one layer per step, against the top-down definition *)
(* BuildOctree.  A key is  b * W + position  (the code: W = 2^48); shifting a *)
(* key by three bits moves the batch index to W / 8, where it is picked up    *)
(* again.  Every cell set up to the given size is explored.                   *)
EXTENDS OctreeModel, TLC, FiniteSetsExt
CONSTANTS Depth, MaxCells, MaxBatch
W == 8^(Depth + 1)
VARIABLES cells, full, bs, d, nk, L, want

RECURSIVE PosR(_, _, _, _)
PosR(x, y, z, i) == IF i = Depth + 1 THEN 0
                    ELSE (((4 * Bit(x, i)) + (2 * Bit(y, i)) + Bit(z, i)) * (8^i)) + PosR(x, y, z, i + 1)
KeyInt(c) == (c[1] * W) + PosR(c[2], c[3], c[4], 0)
SortKeys(S_) == SetToSortSeq(S_, LAMBDA a, b: a < b)
Uniq(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i: i = 1 \/ s[i] # s[i - 1])   \* positions of first occurrences
Grid == { << b, x, y, z >> : b \in 0..(bs - 1), x \in 0..(2^Depth - 1), y \in 0..(2^Depth - 1), z \in 0..(2^Depth - 1) }
G(b) == { << i, x, y, z >> : i \in 0..(b - 1), x \in 0..(2^Depth - 1), y \in 0..(2^Depth - 1), z \in 0..(2^Depth - 1) }

RECURSIVE UpTo(_, _)
UpTo(k, S_) == IF k = 1 THEN { {x} : x \in S_ } ELSE UNION { { t \cup {x} : x \in S_ } : t \in UpTo(k - 1, S_) }
NoTree == [depth |-> -1]
Init == /\ bs \in 1..MaxBatch
        /\ full \in 0..Depth
        /\ cells \in { {x} : x \in G(bs) }
        /\ d = Depth + 1
        /\ nk = << >> /\ L = [e \in {} |-> 0] /\ want = NoTree
Choose == /\ d = Depth + 1
          /\ \E t \in (IF MaxCells = 1 THEN {{}} ELSE {{}} \cup UpTo(MaxCells - 1, G(bs))) :
               /\ cells' = cells \cup t
               /\ nk' = SortKeys({ KeyInt(c) : c \in cells' })
               /\ want' = BuildOctree(cells', Depth, full, bs)
          /\ d' = Depth /\ UNCHANGED << full, bs, L >>

\* one layer between depth and full + 1
Step ==
  /\ d > full /\ d <= Depth
  /\ LET pk0 == [i \in 1..Len(nk) |-> nk[i] \div 8]
         u   == Uniq(pk0)
         pk  == [j \in 1..Len(u) |-> pk0[u[j]]]
         key == [j \in 1..(8 * Len(pk)) |-> (pk[((j - 1) \div 8) + 1] * 8) + ((j - 1) % 8)]
         pix == [i \in 1..Len(nk) |-> Len(SelectSeq(u, LAMBDA q: q <= i)) - 1]
         adr == [i \in 1..Len(nk) |-> (8 * pix[i]) + (nk[i] % 8)]
         ch  == [j \in 1..Len(key) |-> LET m == { i \in 1..Len(nk) : adr[i] = j - 1 }
                                       IN IF m = {} THEN -1 ELSE (CHOOSE i \in m : TRUE) - 1]
     IN /\ L' = (d :> [k |-> key, ch |-> ch]) @@ L
        /\ nk' = [j \in 1..Len(pk) |-> ((pk[j] \div (W \div 8)) * W) + (pk[j] % (W \div 8))]
  /\ d' = d - 1
  /\ UNCHANGED << cells, full, bs, want >>
\* the full layer: links by index in the complete grid
FullStep ==
  /\ d = full
  /\ LET n  == bs * (8^full)
         ix == [i \in 1..Len(nk) |-> ((nk[i] \div W) * (8^full)) + (nk[i] % W)]
     IN L' = (d :> [k |-> [j \in 1..n |-> (((j - 1) \div (8^full)) * W) + ((j - 1) % (8^full))],
                    ch |-> [j \in 1..n |-> LET m == { i \in 1..Len(ix) : ix[i] = j - 1 }
                                           IN IF m = {} THEN -1 ELSE (CHOOSE i \in m : TRUE) - 1]]) @@ L
  /\ d' = d - 1
  /\ UNCHANGED << cells, full, bs, want, nk >>
Next == Choose \/ Step \/ FullStep
Spec == Init /\ [][Next]_<< cells, full, bs, d, nk, L, want >>

\* the pending keys are the occupied cells of the current layer
Pending == d \in full..Depth => nk = SortKeys({ KeyInt(c) : c \in Occ(cells, 2^(Depth - d)) })
\* every finished layer is the layer of the definition
Refines == \A e \in DOMAIN L : LET ly == Layer(want, e)
  IN /\ L[e].k = [i \in 1..Len(ly.n) |-> KeyInt(ly.n[i])]
     /\ L[e].ch = ly.rk
WellFormed == d = Depth => \A e \in 0..Depth : WellFormedAt(want, e)
=============================================================================
