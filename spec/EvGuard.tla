------------------------------- MODULE EvGuard -------------------------------
(* Which calls are well formed.  A call that is not is refused (it raises)    *)
(* and leaves every object as it was; a well-formed one goes through.  Shapes *)
(* are sequences of dimensions; << -1 >> stands for an absent attribute.      *)
EXTENDS EvStruct

Absent(s) == s = << -1 >>
\* a cloud: coordinates n x 3, normals n x 3, features n x c, labels n or n x c, batch ids n or n x 1
CloudOk(e) ==
  /\ Len(e.pts) = 2 /\ e.pts[2] = 3
  /\ Absent(e.nrm) \/ e.nrm = e.pts
  /\ Absent(e.ft) \/ (Len(e.ft) = 2 /\ e.ft[1] = e.pts[1])
  /\ Absent(e.lb) \/ (Len(e.lb) \in {1, 2} /\ e.lb[1] = e.pts[1])
  /\ Absent(e.bid) \/ (Len(e.bid) \in {1, 2} /\ e.bid[1] = e.pts[1] /\ (Len(e.bid) = 2 => e.bid[2] = 1))
KernelNames == { "333", "222", "311", "131", "113", "331", "313", "133" }
RowsAt(h, e) == IF e.ne THEN NumNe(h[e.id], e.d) ELSE Num(h[e.id], e.d)
IsPrefixChars(s, ok) == \A i \in 1..Len(s) : s[i] \in ok
Accepts(h, e) ==
  CASE e.op = "points"   -> CloudOk(e)
    [] e.op = "build"    -> e.pbs = e.obs
    [] e.op = "growfull" -> e.d <= e.full
    [] e.op = "neigh"    -> e.stride \in {1, 2} /\ e.kernel \in KernelNames
    \* convolutions: one row of `cin` channels per (non-empty) node of the layer
    [] e.op \in {"conv", "deconv", "dwconv", "gconv"} -> e.sh = << RowsAt(h, e), e.cin >>
    [] e.op \in {"nearest", "linear", "upnearest", "uplinear", "align"} -> e.sh[1] = RowsAt(h, e)
    [] e.op = "target"   -> e.target >= e.d
    [] e.op = "groups"   -> e.cin % e.group = 0 /\ e.cout % e.group = 0
    [] e.op = "scale"    -> \A k \in 1..3 : e.f[k] # 0
    [] e.op = "save"     -> e.ext \in {"npz", "xyz"} /\ IsPrefixChars(e.info, {"P", "N", "F", "L", "B"})
    [] e.op = "orient"   -> e.axis \in {"x", "y", "z", "xyz"}
    [] e.op = "flip"     -> IsPrefixChars(e.axes, {"x", "y", "z"})
    [] e.op = "resize"   -> e.list /\ e.len <= e.num
    [] e.op = "example"  -> e.n \in 1..3
    [] e.op = "collate"  -> e.list
    [] e.op = "reader"   -> e.ext \in { e.known[i] : i \in 1..Len(e.known) }
    [] e.op = "channels" -> e.got = e.want
    [] OTHER -> FALSE
EvGuard(h, e) ==
  LET ok == Accepts(h, e)
  IN Keep(h, Chk(ok => ~e.refused, "guard.refused_" \o e.op)
             \cup Chk(~ok => e.refused, "guard.accepted_" \o e.op)
             \* nothing is left behind by a refused call
             \cup Chk(e.refused => e.left = 0, "guard.left_behind"))
HandleGuard(h, e) ==
  CASE e.e = "guard" -> EvGuard(h, e)
    [] OTHER -> Keep(h, {"unknown_event"})
=============================================================================
