------------------------------- MODULE MCVote --------------------------------
(* Every order, partition into batches and clipping pattern, exhaustively.    *)
EXTENDS VoteSession
S22 == << 2, 2 >>
S232 == << 2, 3, 1 >>
Orders(S, n) == { q \in [1..n -> S] : \A i, j \in 1..n : i # j => q[i] # q[j] }
RECURSIVE MaskSeqs(_, _)
MaskSeqs(files, s) == IF s > Len(files) THEN { <<>> }
                      ELSE { << m >> \o r : m \in Masks(Sizes[files[s]]), r \in MaskSeqs(files, s + 1) }
Init == Init0
Next == \/ Turn
        \/ /\ todo # {}
           /\ \E n \in 1..MaxBatch : n <= Cardinality(todo) /\ \E files \in Orders(todo, n) :
                \E masks \in MaskSeqs(files, 1) : Serve(files, masks)
Spec == Init /\ [][Next]_<< ep, todo, st, saved, said >>
=============================================================================
