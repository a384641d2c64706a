------------------------------ MODULE VoteModel ------------------------------
(* Voting over repeated evaluations: a batch is predicted as one list of rows *)
(* for the points that survived clipping; the rows are dealt back to the      *)
(* samples, scattered to the positions of the kept points and added to what   *)
(* the file has collected so far.                                             *)
EXTENDS Common, TLC

Start(npt, s) == SumTo(npt, s - 1)
NoVotes(n, K) == [i \in 1..n |-> [k \in 1..K |-> 0]]
Rank(mask, i) == Cardinality({ j \in 1..i : mask[j] = 1 })
\* predictions of one sample at the positions of the kept points
Scatter(mask, pr, K) ==
  [i \in 1..Len(mask) |-> IF mask[i] = 1 THEN pr[Rank(mask, i)] ELSE [k \in 1..K |-> 0]]
AddVotes(a, b) == [i \in 1..Len(a) |-> [k \in 1..Len(a[i]) |-> a[i][k] + b[i][k]]]
\* st: [acc: file -> votes, cnt: file -> predictions added, K]; one sample
VoteOne(st, f, mask, pr) ==
  LET v   == TLCEval(Scatter(mask, pr, st.K))
      old == IF f \in DOMAIN st.acc THEN st.acc[f] ELSE NoVotes(Len(v), st.K)
      c   == IF f \in DOMAIN st.cnt THEN st.cnt[f] ELSE 0
  IN [st EXCEPT !.acc = (f :> TLCEval(AddVotes(old, v))) @@ st.acc, !.cnt = (f :> (c + 1)) @@ st.cnt]
\* a batch: files, number of kept points, masks; P(i): the i-th row of the batch
RECURSIVE VoteFrom(_, _, _, _, _, _)
VoteFrom(st, files, npt, masks, P(_), s) ==
  IF s > Len(files) THEN st
  ELSE LET p0 == Start(npt, s)
       IN VoteFrom(VoteOne(st, files[s], masks[s], TLCEval([j \in 1..npt[s] |-> P(p0 + j)])), files, npt, masks, P, s + 1)
NoState(K) == [acc |-> [x \in {} |-> 0], cnt |-> [x \in {} |-> 0], K |-> K]
=============================================================================
