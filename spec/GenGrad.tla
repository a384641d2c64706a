------------------------------- MODULE GenGrad -------------------------------
(* The programs of GradDesign on octrees picked by VERIF_SEED, printed at the *)
(* turn for the replay on the real operators; one in Skip is kept, except     *)
(* that programs with a skip connection are all kept.                         *)
EXTENDS GradDesign, Json, IOUtils
CONSTANTS Octs, Skip
Seed == atoi(IOEnv.VERIF_SEED)
M2 == 244944
Nx(r) == ((r * 1597) + 51749) % M2
\* the n-th octree: one to three cells, from the draw
CellAt(r, bs) == LET a == Nx(r) b == Nx(a) IN << (b \div 7) % bs, (a \div 11) % (2^Depth), (b \div 64) % (2^Depth), (a \div 977) % (2^Depth) >>
Start(n) == Nx(Nx(((n * 7919) + (Seed * 104729)) % M2))
Cells3(n, bs) == LET r == Start(n) IN { CellAt(r, bs) } \cup (IF n % 3 = 0 THEN {} ELSE { CellAt(Nx(Nx(r)), bs) }) \cup (IF n % 3 = 2 THEN { CellAt(Nx(Nx(Nx(r))), bs) } ELSE {})
GInit == /\ pc = "cell" /\ o = NoO /\ ne \in BOOLEAN /\ x = << >> /\ at \in [full : 0..1, bs : 1..MaxBatch, n : 1..Octs]
         /\ tape = << >> /\ held = << >> /\ g = << >> /\ gh = << >> /\ y0 = 0 /\ gy = << >>
GChoose ==
  /\ pc = "cell"
  /\ LET oo == ConstructAllNeigh(BuildOctree(Cells3(at.n, at.bs), Depth, at.full, at.bs))
     IN o' = oo /\ x' = X0(NumRows(oo, Depth, ne))
  /\ at' = [d |-> Depth, ne |-> ne]
  /\ pc' = "fwd" /\ UNCHANGED << ne, tape, held, g, gh, y0, gy >>
Names == [i \in 1..Len(tape) |-> << tape[i].name, tape[i].at.d, tape[i].at.ne >>]
GTurn ==
  /\ Turn
  /\ ((\E i \in 1..Len(tape) : tape[i].k = "add") \/ (Len(tape) = MaxLen /\ (SumSeq(x, Len(x)) + Len(x) + Seed) % Skip = 0))
       => PrintT("@@PROG " \o ToJson([depth |-> Depth, full |-> o.full, bs |-> o.bs, ne |-> ne, cells |-> Rows(o, Depth, TRUE), prog |-> Names]))
GNext == GChoose \/ Forward \/ GTurn
GSpec == GInit /\ [][GNext]_vars
=============================================================================
