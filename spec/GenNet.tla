------------------------------- MODULE GenNet --------------------------------
(* Enumerates the supported network configurations and prints, for each, the  *)
(* configuration together with its program.                                   *)
EXTENDS NetModel, Json
CONSTANT Deep
VARIABLES c, done

MinI(a, b) == IF a < b THEN a ELSE b
B == {TRUE, FALSE}
Cls(a, D, st, r, ne, F) == [arch |-> a, D |-> D, st |-> st, r |-> r, ne |-> ne, F |-> F, m |-> "", v |-> 0]
Seg(a, D, st, ne, F, m, v) == [arch |-> a, D |-> D, st |-> st, r |-> 0, ne |-> ne, F |-> F, m |-> m, v |-> v]
Reps == IF Deep THEN 1..6 ELSE 1..1
Configs ==
  { Cls("resnet", D, st, r, ne, MinI(2, D - st)) : D \in {4, 5}, st \in 1..(IF Deep THEN 5 ELSE 4), r \in 1..2, ne \in B }
  \cup { Cls("resnet", 5, 5, 1, ne, 0) : ne \in B }
  \cup { Cls("resnet", 4, 2, r, ne, 2) : r \in {3, 4, 6}, ne \in B }
  \cup { Cls("hrnet", 6, 4, 0, ne, 2) : ne \in B }
  \cup { Cls("hrnet", 5, st, 0, ne, 3) : st \in 2..3, ne \in B }
  \cup { Cls("resnet", D, D - 1, 1, ne, F) : D \in {3, 4}, ne \in B, F \in {2, 3} }
  \cup { Cls("resnet", 4, 4, 1, TRUE, 3), Cls("resnet", 3, 3, 1, FALSE, 2), Cls("lenet", 4, 2, 0, FALSE, 3), Cls("lenet", 4, 2, 0, TRUE, 3) }
  \cup { Seg("segnet", 4, 2, ne, 3, m, 0) : ne \in B, m \in {"nearest", "linear"} }
  \cup { Seg("unet", 5, 4, ne, 3, "nearest", 2) : ne \in B }
  \cup { Cls("lenet", st + 2, st, 0, ne, 2) : st \in 1..3, ne \in B }
  \cup { Cls("hrnet", D, st, 0, ne, 2) : D \in {5, 6}, st \in 1..(IF Deep THEN 4 ELSE 3), ne \in B }
  \cup { Seg("segnet", D, st, ne, MinI(2, D - st), m, 0) : D \in {3, 5}, st \in 1..4, ne \in B, m \in {"nearest", "linear"} }
  \cup { Seg("unet", 5, 4, ne, F, m, v) : ne \in B, F \in {1, 2}, m \in {"nearest", "linear"}, v \in 0..3 }
  \cup { Seg(a, D, 0, FALSE, F, "", 0) : a \in {"ae", "ounet", "i2s"}, D \in {3, 4}, F \in 1..2 }
Ok(x) == /\ x.arch \in {"resnet", "segnet"} => x.D - x.st >= 0 /\ x.st >= 1
         /\ x.arch = "hrnet" => x.D - x.st >= 2
         \* pooling of non-empty features needs a non-empty child everywhere, which
         \* only holds down to the full depth
         /\ (x.ne /\ x.arch \in {"resnet", "lenet", "segnet", "hrnet"}) => (IF x.arch = "hrnet" THEN 2 ELSE x.D - x.st) >= x.F
         /\ (x.arch = "segnet") => x.D - x.st >= 1     \* the bottleneck convolves at depth D - st

\* U-Net variants: the default and overridden configurations (channels, number
\* of blocks, stages of the decoder, kind of block)
UCfg(v) ==
  CASE v = 0 -> [c |-> <<32, 32, 64, 128, 256>>, dc |-> <<256, 256, 128, 96, 96>>, eb |-> <<2, 3, 4, 6>>, db |-> <<2, 2, 2, 2>>, hd |-> 64, bn |-> 1, kind |-> 2]
    [] v = 1 -> [c |-> <<8, 12, 16>>, dc |-> <<16, 10, 6>>, eb |-> <<1, 2>>, db |-> <<2, 1>>, hd |-> 16, bn |-> 2, kind |-> 1]
    [] v = 2 -> [c |-> <<6, 4, 8, 6>>, dc |-> <<6, 8, 4>>, eb |-> <<1, 1, 1>>, db |-> <<1, 2>>, hd |-> 8, bn |-> 1, kind |-> 2]
    [] v = 3 -> [c |-> <<8, 8, 8, 8, 8>>, dc |-> <<8, 8, 8, 8, 8>>, eb |-> <<1, 1, 1, 1>>, db |-> <<1, 1, 1, 1>>, hd |-> 8, bn |-> 2, kind |-> 2]
Plan(x) ==
  CASE x.arch = "resnet" -> ResNet(x.D, x.st, x.r)
    [] x.arch = "lenet" -> LeNet(x.D, x.st)
    [] x.arch = "hrnet" -> HRNet(x.D, x.st)
    [] x.arch = "segnet" -> SegNet(x.D, x.st, x.m)
    [] x.arch = "unet" -> LET u == UCfg(x.v) IN UNet(x.D, u.c, u.dc, u.eb, u.db, u.kind, x.m, u.hd, u.bn)
    [] x.arch = "ae" -> AE(x.D, x.F, 16)
    [] x.arch = "ounet" -> OUNet(x.D, x.F)
    [] x.arch = "i2s" -> I2S(x.D, x.F, 8)
Outs(x) == IF x.arch \in {"ae", "ounet", "i2s"} THEN DecOuts(x.D, x.F) ELSE <<"out">>

\* every register is assigned exactly once and read only after its assignment
WellFormed(p) ==
  LET defs(i) == { p[j].y : j \in 1..i } \cup { p[j].y \o "!" : j \in 1..i } \cup {"in", "code"}
  IN \A i \in 1..Len(p) : /\ p[i].y \notin { p[j].y : j \in 1..(i - 1) }
                          /\ \A k \in 1..Len(p[i].x) : p[i].x[k] \in defs(i - 1)

Init == c \in { x \in Configs : Ok(x) } /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ \A r \in Reps : PrintT("@@PROG " \o ToJson([cfg |-> c, u |-> IF c.arch = "unet" THEN UCfg(c.v) ELSE UCfg(1), rep |-> r, plan |-> Plan(c), par |-> ParamsOf(Plan(c), CIN, 8), outs |-> Outs(c)]))
Spec == Init /\ [][Next]_<<c, done>>
PlanOk == WellFormed(Plan(c))
=============================================================================
