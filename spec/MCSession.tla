----------------------------- MODULE MCSession ------------------------------
(* Exhaustive exploration of short sessions: every reachable heap satisfies   *)
(* the structural invariants, and merge / grow agree with build.              *)
EXTENDS Session
CONSTANT MaxLevel
\* one neighbour / layer / search query of each object does not change the state
Structural == Builds \o Inits \o Merges \o Splits \o Grows \o CNeigh \o CNeighs
Init == heap = <<>>
Next == LET ss == TLCEval(Structural) IN \E k \in 1..Len(ss) : heap' = Eff(heap, ss[k])
Spec == Init /\ [][Next]_heap
Bound == TLCGet("level") <= MaxLevel
ASSUME MergeIsBuild
ASSUME RegrowIsBuild
=============================================================================
