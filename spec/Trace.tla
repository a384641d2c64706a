------------------------------- MODULE Trace --------------------------------
(* The trace specification.  Every recorded program execution is one          *)
(* behaviour: the k-th step consumes the k-th event, moves the abstract heap  *)
(* by the corresponding action of the model, and evaluates the event's        *)
(* verdict.  `digs` carries the fingerprints of all live real objects so that *)
(* the frame condition ("only what the action writes may change") is checked  *)
(* at every step.                                                             *)
EXTENDS EvStruct, EvOps, EvPoints, EvNet, EvTools, EvGuard, EvGrad, Json, IOUtils

TraceFile == IOEnv.TRACE_FILE
Traces == JsonDeserialize(TraceFile)

VARIABLES tid, l, heap, digs
vars == <<tid, l, heap, digs>>

Handle(h, e) ==
  CASE e.e = "key"      -> EvKey(h, e)
    [] e.e = "build"    -> EvBuild(h, e)
    [] e.e = "init"     -> EvInit(h, e)
    [] e.e = "new"      -> EvNew(h, e)
    [] e.e = "growfull" -> EvGrowFull(h, e)
    [] e.e = "split"    -> EvSplit(h, e)
    [] e.e = "grow"     -> EvGrow(h, e)
    [] e.e = "merge"    -> EvMerge(h, e)
    [] e.e = "refuse"   -> EvRefuse(h, e)
    [] e.e = "neighrows" -> EvNeighRows(h, e)
    [] e.e = "cneigh"   -> EvConstructNeigh(h, e)
    [] e.e = "cneighs"  -> EvConstructAll(h, e)
    [] e.e = "neigh"    -> EvNeigh(h, e)
    [] e.e = "search"   -> EvSearch(h, e)
    [] e.e = "layer"    -> EvLayer(h, e)
    [] e.e = "feat"     -> EvFeat(h, e)
    [] e.e = "topoints" -> EvToPoints(h, e)
    [] e.e = "crash"    -> Keep(h, {"program.aborted"})
    [] e.m = "ops"      -> HandleOps(h, e)
    [] e.m = "points"   -> HandlePoints(h, e)
    [] e.m = "net"      -> HandleNet(h, e)
    [] e.m = "eval"     -> HandleEval(h, e)
    [] e.m = "tools"    -> HandleTools(h, e)
    [] e.m = "guard"    -> HandleGuard(h, e)
    [] e.m = "grad"     -> HandleGrad(h, e)
    [] OTHER            -> Keep(h, {"unknown_event"})

\* ids of live objects whose contents the event may change
Writes(e) == { e.w[i] : i \in 1..Len(e.w) }

\* a neighbour table may be constructed lazily, but never altered
SameObj(old, new) ==
  /\ old[2] = new[2]
  /\ Len(old[3]) = Len(new[3])
  /\ \A k \in 1..Len(old[3]) : old[3][k] = "-" \/ old[3][k] = new[3][k]

Frame(d, e) ==
  Chk(\A i \in 1..Len(e.dig) :
        LET id == e.dig[i][1]
        IN (id \in DOMAIN d /\ id \notin Writes(e)) => SameObj(d[id], e.dig[i]),
      "frame.object_changed")
  \cup Chk(\A i \in 1..Len(e.args) : e.args[i][2] = e.args[i][3], "frame.argument_changed")

NextDigs(d, e) ==
  LET ix == 1..Len(e.dig)
  IN [id \in { e.dig[i][1] : i \in ix } |-> e.dig[CHOOSE i \in ix : e.dig[i][1] = id]]

Empty == [x \in {} |-> 0]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ heap = Empty
        /\ digs = Empty

Step ==
  /\ l <= Len(Traces[tid])
  /\ LET e == Traces[tid][l]
         \* no specified action may fail, and nothing is said about what a failed call leaves behind
         r == IF e.err # "" /\ e.e # "crash" THEN Keep(heap, {e.e \o ".raised"}) ELSE Handle(heap, e)
         v == r.v \cup Frame(digs, e)
     IN /\ heap' = r.h
        /\ digs' = NextDigs(digs, e)
        \* a rejected event ends its trace: the abstract state no longer describes the real one
        /\ IF v # {} THEN PrintT("@@BAD " \o ToJson(<<tid, l, e.e, v>>)) /\ l' = Len(Traces[tid]) + 1
           ELSE l' = l + 1
  /\ (l' = Len(Traces[tid]) + 1 => PrintT("@@DONE " \o ToString(tid)))
  /\ UNCHANGED tid

Next == Step
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
