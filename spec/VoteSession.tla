----------------------------- MODULE VoteSession -----------------------------
(* A whole evaluation: `Epochs` passes over the files, each pass in any order *)
(* and any partition into batches, every point clipped away or kept at every  *)
(* pass.  The votes are computed by the batch mechanism of VoteModel and,     *)
(* independently, by summing what was said about each point (ghost `said`).   *)
(* When the last epoch serves a file its collected votes are saved.           *)
EXTENDS VoteModel
CONSTANTS Sizes, K, Epochs, MaxBatch
VARIABLES ep, todo, st, saved, said

Files == 1..Len(Sizes)
Masks(n) == { m \in [1..n -> {0, 1}] : \E i \in 1..n : m[i] = 1 }
\* what the network answers for point i of file f at epoch e (depends on all three)
Answer(f, i, e) == [k \in 1..K |-> IF k = 1 + ((f + i + e) % K) THEN 2 ELSE 1]
Kept(mask) == SelectSeq([i \in 1..Len(mask) |-> i], LAMBDA i: mask[i] = 1)
RECURSIVE CatAns(_, _, _, _)
CatAns(files, masks, e, s) ==
  IF s > Len(files) THEN <<>>
  ELSE LET kp == Kept(masks[s]) IN [j \in 1..Len(kp) |-> Answer(files[s], kp[j], e)] \o CatAns(files, masks, e, s + 1)
Point(f, i) == << f, i >>
Points0 == UNION { { Point(f, i) : i \in 1..Sizes[f] } : f \in Files }
TypeOk == /\ ep \in 0..Epochs
          /\ todo \subseteq Files
Init0 == /\ ep = 0 /\ todo = Files /\ st = NoState(K) /\ saved = [x \in {} |-> 0]
         /\ said = [p \in Points0 |-> [k \in 1..K |-> 0]]
\* serve one batch
Serve(files, masks) ==
  LET npt  == [s \in 1..Len(files) |-> Len(Kept(masks[s]))]
      rows == TLCEval(CatAns(files, masks, ep, 1))
      s1   == VoteFrom(st, files, npt, masks, LAMBDA i: rows[i], 1)
      now  == { files[s] : s \in 1..Len(files) }
      at(f) == CHOOSE s \in 1..Len(files) : files[s] = f
  IN /\ st' = s1
     /\ saved' = IF ep = Epochs - 1 THEN [f \in now |-> s1.acc[f]] @@ saved ELSE saved
     /\ said' = [p \in Points0 |-> IF p[1] \in now /\ masks[at(p[1])][p[2]] = 1
                                   THEN [k \in 1..K |-> said[p][k] + Answer(p[1], p[2], ep)[k]] ELSE said[p]]
     /\ todo' = todo \ now
     /\ UNCHANGED ep
Turn == /\ todo = {} /\ ep < Epochs
        /\ ep' = ep + 1
        /\ todo' = IF ep + 1 < Epochs THEN Files ELSE {}
        /\ UNCHANGED << st, saved, said >>

\* every point of every file holds exactly the votes cast about it, whatever the batches and the clipping
VotesExact == \A f \in DOMAIN st.acc : /\ Len(st.acc[f]) = Sizes[f]
                                        /\ \A i \in 1..Sizes[f] : st.acc[f][i] = said[Point(f, i)]
\* files not served yet have nothing
Unserved == \A f \in Files \ DOMAIN st.acc : ep = 0 /\ f \in todo
\* the saved result of a file is its final one, and every file is saved at the end
SavedExact == \A f \in DOMAIN saved : saved[f] = st.acc[f]
SavedAll == (ep = Epochs \/ (ep = Epochs - 1 /\ todo = {})) => DOMAIN saved = Files
SavedNotEarly == ep < Epochs - 1 => DOMAIN saved = {}
ServedOk == \A f \in DOMAIN st.cnt : st.cnt[f] = ep + (IF f \in todo \/ ep = Epochs THEN 0 ELSE 1)
VoteOk == TypeOk /\ VotesExact /\ Unserved /\ SavedExact /\ SavedAll /\ SavedNotEarly /\ ServedOk
=============================================================================
