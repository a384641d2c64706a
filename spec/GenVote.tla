------------------------------- MODULE GenVote -------------------------------
(* Pseudo-random evaluations (deterministic in VERIF_SEED), printed as        *)
(* programs with the number of votes the model predicts for every point.      *)
EXTENDS VoteSession, Json, IOUtils
CONSTANTS Count
VARIABLES rnd, prog
Seed == atoi(IOEnv.VERIF_SEED)
M == 244944
Nxt(r) == ((r * 1597) + 51749) % M
Pick(r, n) == ((r * n) \div M) + 1
G3 == << 3, 1, 4 >>
G4 == << 2, 5, 1, 3 >>
\* the n-th subset order: files of todo rotated by the draw, then the first nb of them
Sorted(S) == LET RECURSIVE Q(_)
                    Q(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN << x >> \o Q(T \ {x})
             IN Q(S)
Rot(q, k) == [i \in 1..Len(q) |-> q[((i + k - 1) % Len(q)) + 1]]
RECURSIVE Draw(_, _)
Draw(r, k) == IF k = 0 THEN r ELSE Draw(Nxt(r), k - 1)
\* a clipping pattern: bit i kept unless its draw is small; never all clipped
MaskOf(r, n) == LET m == TLCEval([i \in 1..n |-> IF Pick(Draw(r, i), 10) <= 3 THEN 0 ELSE 1])
                IN IF \E i \in 1..n : m[i] = 1 THEN m ELSE [m EXCEPT ![Pick(r, n)] = 1]
Init == /\ Init0
        /\ \E t \in 1..Count : rnd = Nxt(Nxt(((t * 7919) + (Seed * 104729)) % M))
        /\ prog = <<>>
Votes == [f \in Files |-> [i \in 1..Sizes[f] |-> Sum(st.acc[f][i]) \div (K + 1)]]
Next ==
  IF todo # {}
  THEN LET nb  == Pick(rnd, IF Cardinality(todo) < MaxBatch THEN Cardinality(todo) ELSE MaxBatch)
           r1  == Nxt(rnd)
           all == TLCEval(Rot(Sorted(todo), Pick(r1, Cardinality(todo))))
           r2  == Nxt(r1)
           fs  == SubSeq(all, 1, nb)
           ms  == TLCEval([s \in 1..nb |-> MaskOf(Draw(r2, 7 * s), Sizes[fs[s]])])
       IN /\ Serve(fs, ms)
          /\ prog' = Append(prog, [ep |-> ep, files |-> fs, masks |-> ms])
          /\ rnd' = Draw(r2, 11)
  ELSE /\ Turn
       /\ UNCHANGED << rnd, prog >>
       /\ (ep = Epochs - 1 => PrintT("@@PROG " \o ToJson([K |-> K, epochs |-> Epochs, sizes |-> Sizes, steps |-> prog, votes |-> Votes])))
Spec == Init /\ [][Next]_<< ep, todo, st, saved, said, rnd, prog >>
=============================================================================
