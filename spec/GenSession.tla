----------------------------- MODULE GenSession -----------------------------
(* Long pseudo-random sessions (deterministic in VERIF_SEED): Count walks of  *)
(* Steps commands through the session machine, printed as programs.           *)
EXTENDS Session, Json, IOUtils
CONSTANTS Steps, Count
VARIABLES rnd, prog
Seed == atoi(IOEnv.VERIF_SEED)
M == 244944
Nxt(r) == ((r * 1597) + 51749) % M
Pick(r, n) == ((r * n) \div M) + 1
\* operations; state-changing ones are listed more often
Cats == << Builds, Inits, Merges, Splits, Splits, Grows, Grows, Grows, CNeigh, CNeighs, CNeighs,
           Neighs, Neighs, Neighs, Layers, Searches, Exports, Feats, Moves >>
Init == /\ heap = <<>>
        /\ \E t \in 1..Count : rnd = Nxt(Nxt(((t * 7919) + (Seed * 104729)) % M))
        /\ prog = <<>>
Next ==
  /\ Len(prog) < Steps
  /\ LET live == TLCEval(SelectSeq(TLCEval(Cats), LAMBDA s: Len(s) > 0))
         cat == live[Pick(rnd, Len(live))]
         r2 == Nxt(rnd)
         cmd == cat[Pick(r2, Len(cat))]
     IN /\ heap' = Eff(heap, cmd)
        /\ prog' = Append(prog, cmd)
        /\ rnd' = Nxt(r2)
        /\ (Len(prog) = Steps - 1 => PrintT("@@PROG " \o ToJson([depth |-> Depth, full |-> Full, clouds |-> Clouds, cmds |-> prog'])))
Spec == Init /\ [][Next]_<<heap, rnd, prog>>
=============================================================================
