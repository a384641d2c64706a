------------------------------ MODULE GenPoints ------------------------------
(* Long pseudo-random point-cloud sessions (deterministic in VERIF_SEED),     *)
(* printed as programs together with the heap the model predicts at the end.  *)
EXTENDS PointsSession, Json, IOUtils
CONSTANTS Steps, Count
VARIABLES rnd, prog
Seed == atoi(IOEnv.VERIF_SEED)
M == 244944
Nxt(r) == ((r * 1597) + 51749) % M
Pick(r, n) == ((r * n) \div M) + 1
Cats == << News, News, Transs, Flips, Rots, Rots, Scales, Scales, Orients, Clips, Slices, Merges, Merges >>
Init == /\ clouds = <<>>
        /\ \E t \in 1..Count : rnd = Nxt(Nxt(((t * 7919) + (Seed * 104729)) % M))
        /\ prog = <<>>
Next ==
  /\ Len(prog) < Steps
  /\ LET live == TLCEval(SelectSeq(TLCEval(Cats), LAMBDA s: Len(s) > 0))
         cat == live[Pick(rnd, Len(live))]
         r2 == Nxt(rnd)
         cmd == cat[Pick(r2, Len(cat))]
     IN /\ clouds' = Eff(clouds, cmd)
        /\ prog' = Append(prog, cmd)
        /\ rnd' = Nxt(r2)
        /\ (Len(prog) = Steps - 1 => PrintT("@@PROG " \o ToJson([pool |-> Pool, cmds |-> prog', heap |-> clouds'])))
Spec == Init /\ [][Next]_<<clouds, rnd, prog>>
=============================================================================
