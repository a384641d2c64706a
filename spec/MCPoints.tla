------------------------------ MODULE MCPoints -------------------------------
(* Exhaustive exploration of short point-cloud sessions.                      *)
EXTENDS PointsSession
CONSTANT MaxLevel
All == News \o Transs \o Flips \o Rots \o Scales \o Orients \o Clips \o Slices \o Merges
Init == clouds = <<>>
Next == LET ss == TLCEval(All) IN \E k \in 1..Len(ss) : clouds' = Eff(clouds, ss[k])
Spec == Init /\ [][Next]_clouds
Bound == TLCGet("level") <= MaxLevel
=============================================================================
