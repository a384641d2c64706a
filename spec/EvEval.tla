------------------------------- MODULE EvEval --------------------------------
(* The project layer: evaluation by voting, segmentation / classification /   *)
(* reconstruction objectives, dataset readers and their normalisations,       *)
(* semantic label tables.                                                     *)
(*                                                                            *)
(* An evaluation session in the abstract heap is                              *)
(*   [acc : file -> sequence of rows of class votes (1/65536),                *)
(*    cnt : file -> number of accumulated predictions, K : classes]           *)
EXTENDS EvPoints, VoteModel

PU == 65536                       \* unit of probabilities and losses
\* round(65536 * ln n), n = 1..96
LnTab == <<
  0, 45426, 71999, 90852, 105476, 117425, 127527, 136278, 143997, 150902, 157148, 162851, 168097, 172953,
  177475, 181704, 185677, 189423, 192967, 196328, 199526, 202575, 205488, 208277, 210952, 213523, 215996,
  218379, 220679, 222901, 225050, 227130, 229147, 231104, 233003, 234849, 236645, 238393, 240095, 241754,
  243373, 244952, 246494, 248001, 249473, 250914, 252323, 253703, 255054, 256378, 257676, 258949, 260197,
  261422, 262625, 263805, 264965, 266105, 267225, 268327, 269410, 270476, 271524, 272557, 273573, 274573,
  275559, 276530, 277486, 278429, 279359, 280276, 281180, 282071, 282951, 283819, 284676, 285521, 286356,
  287180, 287995, 288799, 289593, 290378, 291154, 291920, 292678, 293427, 294167, 294900, 295624, 296340,
  297048, 297749, 298443, 299129, 299808, 300480, 301146, 301804, 302457, 303102, 303742, 304375, 305002,
  305623, 306239, 306848, 307452, 308051, 308644, 309232, 309814, 310392, 310964, 311531, 312094, 312652,
  313205, 313753, 314297, 314836, 315371, 315902, 316428, 316951, 317469, 317983, 318493, 318999, 319501,
  319999, 320494, 320985, 321472, 321956, 322436, 322912, 323386, 323855, 324322, 324785, 325245, 325702,
  326155, 326606, 327053, 327497, 327939, 328377, 328812, 329245, 329675, 330102, 330526, 330947, 331366,
  331782, 332196, 332607, 333015, 333421, 333824, 334225, 334623, 335019, 335413, 335804, 336193, 336580,
  336964, 337346, 337726, 338104, 338479, 338853, 339224, 339593, 339961, 340326, 340689, 341050, 341409,
  341766, 342121, 342475, 342826, 343175, 343523, 343869, 344213, 344555, 344896, 345234, 345571, 345907,
  346240, 346572, 346902, 347231, 347557, 347883, 348206, 348528, 348849, 349168, 349485, 349801, 350115,
  350428, 350739, 351049, 351358, 351665, 351970, 352274, 352577, 352878, 353178, 353477, 353774, 354070,
  354364, 354658, 354950, 355240, 355530, 355818, 356104, 356390, 356674, 356957, 357239, 357520, 357799,
  358078, 358355, 358631, 358906, 359179, 359452, 359723, 359993, 360262, 360530, 360797, 361063, 361328,
  361592, 361854, 362116, 362377, 362636, 362895, 363152, 363409, 363664, 363919, 364172, 364425, 364676,
  364927, 365177, 365425, 365673, 365920, 366166, 366411, 366655, 366898, 367140, 367382, 367622, 367862,
  368101, 368339, 368576, 368812, 369047, 369282, 369515, 369748, 369980, 370211, 370442, 370671, 370900,
  371128, 371355, 371581, 371807, 372032, 372256, 372479, 372702, 372923, 373144, 373365, 373584, 373803,
  374021, 374239, 374455, 374671, 374886, 375101, 375315, 375528, 375740, 375952, 376163, 376373, 376583,
  376792, 377001, 377208, 377415, 377622, 377828, 378033, 378237, 378441, 378644, 378847, 379049, 379250,
  379451, 379651, 379850, 380049, 380248, 380445, 380642, 380839, 381035, 381230, 381425, 381619, 381813,
  382006, 382198, 382390, 382582, 382772, 382963, 383152, 383341, 383530, 383718, 383906, 384092, 384279,
  384465, 384650, 384835, 385019, 385203, 385387, 385569, 385752, 385934, 386115, 386296, 386476, 386656,
  386835, 387014, 387192, 387370, 387547, 387724, 387901, 388077, 388252, 388427, 388602, 388776, 388949,
  389122, 389295, 389467, 389639, 389810, 389981, 390152, 390322, 390491, 390660, 390829, 390997, 391165,
  391333, 391500, 391666, 391832, 391998, 392163, 392328, 392493, 392657, 392820, 392983, 393146, 393309,
  393471, 393632, 393794, 393954, 394115, 394275, 394435, 394594, 394753, 394911, 395069, 395227, 395384,
  395541, 395698, 395854, 396010, 396165, 396321, 396475, 396630, 396784, 396937, 397091, 397244, 397396,
  397548, 397700, 397852, 398003, 398154, 398304, 398455, 398604, 398754, 398903, 399052, 399200, 399348,
  399496, 399643, 399791, 399937, 400084, 400230, 400376, 400521, 400666, 400811, 400956, 401100, 401244,
  401387, 401530, 401673, 401816, 401958, 402100, 402242, 402383, 402525, 402665, 402806, 402946, 403086,
  403225, 403365, 403504, 403642, 403781, 403919, 404057, 404194, 404332, 404469, 404605, 404742, 404878,
  405014, 405149, 405284, 405419, 405554, 405689, 405823, 405957, 406090, 406224, 406357, 406489, 406622,
  406754, 406886, 407018, 407149, 407281, 407411, 407542, 407673, 407803, 407933, 408062, 408192, 408321,
  408450, 408578, 408707, 408835, 408963, 409090, 409218, 409345, 409472, 409598, 409725, 409851, 409977,
  410103, 410228, 410353, 410478, 410603, 410727, 410851, 410975, 411099, 411223, 411346, 411469, 411592,
  411715, 411837, 411959, 412081, 412203, 412324, 412446, 412567, 412687, 412808, 412928, 413048, 413168,
  413288, 413408, 413527, 413646, 413765, 413883, 414002, 414120, 414238, 414356, 414473, 414591, 414708,
  414825, 414941, 415058, 415174, 415290, 415406, 415522, 415637, 415753, 415868, 415982, 416097, 416212,
  416326, 416440, 416554, 416668, 416781, 416894, 417007, 417120, 417233, 417346, 417458, 417570, 417682,
  417794, 417905, 418017, 418128, 418239, 418349, 418460, 418571, 418681, 418791, 418901, 419010, 419120,
  419229, 419338, 419447, 419556, 419665, 419773, 419881, 419989, 420097, 420205, 420312, 420420, 420527,
  420634, 420741, 420847, 420954, 421060, 421166, 421272, 421378, 421484, 421589, 421694, 421800, 421904,
  422009, 422114, 422218, 422323, 422427, 422531, 422634, 422738, 422841, 422945, 423048, 423151, 423254,
  423356, 423459, 423561, 423663, 423765, 423867, 423969, 424070, 424172, 424273, 424374, 424475, 424576,
  424676, 424777, 424877, 424977, 425077, 425177, 425277, 425376, 425475, 425575, 425674, 425773, 425871,
  425970, 426069, 426167, 426265, 426363, 426461, 426559, 426656, 426754, 426851, 426948, 427045, 427142,
  427239, 427335, 427432, 427528, 427624, 427720, 427816, 427912, 428008, 428103, 428198, 428294, 428389,
  428484, 428578, 428673, 428767, 428862, 428956, 429050, 429144, 429238, 429332 >>

\* position of the first largest entry
ArgMax(r) == CHOOSE j \in 1..Len(r) : (\A k \in 1..Len(r) : r[k] <= r[j]) /\ \A k \in 1..(j - 1) : r[k] < r[j]
FloorDiv(a, b) == (a \div b)
NearF(q, num, den, tol) == LET z == FloorDiv(num, den) IN q - z <= tol + 1 /\ z - q <= tol
\* mean of a sequence of integers against a recorded number
MeanOk(q, s, tol) == LET n == Len(s) IN n = 0 \/ NearF(q, Sum(s), n, tol)

-----------------------------------------------------------------------------
(* voting *)
Prob(r) == LET t == Sum(r) IN [k \in 1..Len(r) |-> (((r[k] * PU) + (t \div 2)) \div t)]
VotesOk(q, v, c) ==
  /\ IsShape(q, << Len(v), IF Len(v) = 0 THEN q.sh[2] ELSE Len(v[1]) >>)
  /\ \A i \in 1..Len(v) : \A k \in 1..Len(v[i]) : Close(q.v[i][k], v[i][k], c + 2)
FilesOf(ps) == { ps[i][1] : i \in 1..Len(ps) }
\* the generator's own count of the votes of every point (each vote is a distribution)
CountOk(q, w) == q.sh[1] = Len(w) /\ \A i \in 1..Len(w) : Close(Sum(q.v[i]), w[i] * PU, 4 * w[i] + 4)
EvVoteCount(h, e) ==
  Keep(h, IF e.err # "" THEN {"eval.raised"}
          ELSE Chk(FilesOf(e.saved) = { e.want[i][1] : i \in 1..Len(e.want) }
                   /\ \A i \in 1..Len(e.saved) : \A j \in 1..Len(e.want) : e.want[j][1] = e.saved[i][1] => CountOk(e.saved[i][2], e.want[j][2]), "eval.vote_count"))
EvVote(h, e) ==
  LET s0 == IF e.ses \in DOMAIN h THEN h[e.ses] ELSE [done |-> {}] @@ NoState(e.K)
      pr == TLCEval([j \in 1..Len(e.lg) |-> Prob(e.lg[j])])
      s1 == TLCEval(VoteFrom(s0, e.files, e.npt, e.masks, LAMBDA j: pr[j], 1))
      B  == Len(e.files)
      last == e.epoch = e.total - 1
      s2 == [s1 EXCEPT !.done = s0.done \cup (IF last THEN { e.files[i] : i \in 1..B } ELSE {})]
      o  == TLCEval(Merge(TLCEval([s \in 1..B |-> BuildOctree({ << 0, e.cells[s][i][1], e.cells[s][i][2], e.cells[s][i][3] >> : i \in 1..e.npt[s] }, e.depth, e.full, 1)])))
      nq == Sum(e.npt)
  IN Put(h, e.ses, s2,
       IF e.err # "" THEN {"eval.raised"}
       ELSE Chk(FilesOf(e.acc) = DOMAIN s2.acc /\ Len(e.acc) = Cardinality(DOMAIN s2.acc), "eval.files")
            \cup Chk(\A i \in 1..Len(e.acc) : e.acc[i][1] \in DOMAIN s2.acc => VotesOk(e.acc[i][2], s2.acc[e.acc[i][1]], s2.cnt[e.acc[i][1]]), "eval.votes")
            \cup Chk(FilesOf(e.saved) = s2.done, "eval.saved_when")
            \cup Chk(last => \A i \in 1..Len(e.saved) : e.saved[i][1] \in { e.files[j] : j \in 1..B }
                       => VotesOk(e.saved[i][2], s2.acc[e.saved[i][1]], s2.cnt[e.saved[i][1]]), "eval.saved_value")
            \cup Chk(e.stray = <<>>, "eval.stray_files")
            \cup Chk(e.ncall = 1, "eval.forward_once")
            \cup Chk(IsShape(e.qb, << nq >>) /\ e.qb.v = Concat([s \in 1..B |-> [i \in 1..e.npt[s] |-> s - 1]]), "eval.query_batch")
            \cup Chk(IsShape(e.qp, << nq, 3 >>) /\ e.qp.v = Concat(e.pts), "eval.query_points")
            \cup HeadVerdict(o, e.head) \cup SnapVerdict(o, e.snap))

\* predictions scored against the labels
Kept2(lab, mask) == LET n == Len(lab) IN SelectSeq([i \in 1..n |-> i], LAMBDA i: lab[i] > mask)
Cnt(S) == Cardinality(S)
EvScore(h, e) ==
  LET ix == TLCEval(Kept2(e.lab, e.mask))
      n  == Len(ix)
      pr == TLCEval([i \in 1..n |-> ArgMax(e.lg[ix[i]]) - 1])
      lb == TLCEval([i \in 1..n |-> e.lab[ix[i]]])
      I_(k) == Cnt({ i \in 1..n : pr[i] = k /\ lb[i] = k })
      U_(k) == Cnt({ i \in 1..n : pr[i] = k \/ lb[i] = k })
      pres == { k \in 0..(e.K - 1) : \E i \in 1..n : lb[i] = k }
      ce == [i \in 1..n |-> LnTab[Sum(e.lg[ix[i]])] - LnTab[e.lg[ix[i]][lb[i] + 1]]]
      iou == [k \in 1..e.K |-> IF (k - 1) \in pres THEN ((I_(k - 1) * PU) \div U_(k - 1)) ELSE 0]
      I1 == [k \in 1..e.K |-> I_(k - 1)]
      U1 == [k \in 1..e.K |-> U_(k - 1)]
      t0 == IF e.ses \in DOMAIN h THEN h[e.ses] ELSE [i |-> ZeroVec(e.K), u |-> ZeroVec(e.K), n |-> 0]
  IN Put(h, e.ses, [i |-> VecAdd(t0.i, I1), u |-> VecAdd(t0.u, U1), n |-> t0.n + 1],
       IF e.err # "" THEN {"score.raised"}
       ELSE Chk(e.names = e.xnames, "score.names")
            \cup Chk(MeanOk(e.loss, ce, 24), "score.loss")
            \cup Chk(NearF(e.accu, Cnt({ i \in 1..n : pr[i] = lb[i] }) * PU, n, 4), "score.accuracy")
            \cup (IF e.train THEN {} ELSE
                 Chk(e.intsc = I1, "score.intersection")
                 \cup Chk(e.union = U1, "score.union")
                 \cup Chk(IF pres = {} THEN e.miou = 0 ELSE NearF(e.miou, Sum(iou), Cnt(pres), 6), "score.miou")))
\* part IoU of everything scored so far: mean over the classes above the mask
EvPart(h, e) ==
  LET t == h[e.ses]
      cl == (e.mask + 2)..e.K
      v == [k \in 1..e.K |-> IF k \in cl /\ t.u[k] > 0 THEN ((t.i[k] * PU) \div t.u[k]) ELSE 0]
  IN Keep(h, IF e.err # "" THEN {"part.raised"}
             ELSE Chk(NearF(e.part, Sum(v), Cardinality(cl), 8), "part.miou"))

\* classification
EvCls(h, e) ==
  LET n == Len(e.lab)
      ce == [i \in 1..n |-> LnTab[Sum(e.lg[i])] - LnTab[e.lg[i][e.lab[i] + 1]]]
  IN Keep(h, IF e.err # "" THEN {"cls.raised"}
             ELSE Chk(e.names = e.xnames, "cls.names")
                  \cup Chk(MeanOk(e.loss, ce, 24), "cls.loss")
                  \cup Chk(NearF(e.accu, Cnt({ i \in 1..n : ArgMax(e.lg[i]) - 1 = e.lab[i] }) * PU, n, 4), "cls.accuracy"))

-----------------------------------------------------------------------------
(* reconstruction objectives *)
\* e.lgs[i]: class weights of the nodes of depth full + i - 1; e.sig / e.gt:
\* predicted and true signal in units of 1/16
EvAeLoss(h, e) ==
  LET o == h[e.id]
      ds == o.full..o.depth
      lab(d) == LET b == o.L[d + 1].ne IN [i \in 1..Len(b) |-> IF b[i] THEN 1 ELSE 0]
      ce(d) == LET l == lab(d)  g == e.lgs[d - o.full + 1]
               IN [i \in 1..Len(l) |-> LnTab[g[i][1] + g[i][2]] - LnTab[g[i][l[i] + 1]]]
      hit(d) == LET l == lab(d)  g == e.lgs[d - o.full + 1] IN Cnt({ i \in 1..Len(l) : ArgMax(g[i]) - 1 = l[i] })
      n == Len(e.gt)
      sq == [i \in 1..n |-> Sum([c \in 1..Len(e.gt[i]) |-> LET z == e.gt[i][c] - e.sig[i][c] IN z * z])]
  IN Keep(h, IF e.err # "" THEN {"aeloss.raised"}
             ELSE Chk(Len(e.losses) = Cardinality(ds) /\ Len(e.accus) = Cardinality(ds), "aeloss.depths")
                  \cup Chk(e.names = e.xnames, "aeloss.names")
                  \cup Chk(\A d \in ds : MeanOk(e.losses[d - o.full + 1], ce(d), 24), "aeloss.split")
                  \cup Chk(\A d \in ds : NearF(e.accus[d - o.full + 1], hit(d) * PU, Num(o, d), 4), "aeloss.accuracy")
                  \cup Chk(IsShape(e.gtt, << n, 4 >>) /\ e.gtt.v = e.gt, "aeloss.target")
                  \cup Chk(NearF(e.reg, Sum(sq) * 256, n, 40), "aeloss.regression")
                  \cup Chk(Close(e.loss, Sum(e.losses) + e.reg, 40), "aeloss.total"))

\* decoded octree to points: e.sig rows <<axis, sign or 0, displacement/8>>
EvAePts(h, e) ==
  LET o == h[e.id]
      r == Rows(o, o.depth, TRUE)
      ax(i, a) == IF e.sg[i][1] = a THEN e.sg[i][2] ELSE 0
      u == 2^(o.depth - 1)
      pos(i, a) == (((8 * r[i][a + 1] + 4 + ax(i, a) * e.sg[i][3]) * PS) \div (8 * u)) - PS
      own(s) == SelectSeq([i \in 1..Len(r) |-> i], LAMBDA i: r[i][1] = s - 1)
      ok(q, s) == LET g == own(s) IN
                   /\ IsShape(q, << Len(g), 6 >>)
                   /\ \A j \in 1..Len(g) : \A a \in 1..3 : Close(q.v[j][a], pos(g[j], a), e.tol)
                                        /\ Close(q.v[j][a + 3], PS * ax(g[j], a), e.tol)
  IN Keep(h, IF e.err # "" THEN {"decode.raised"}
             ELSE Chk(Len(e.out) = o.bs /\ \A s \in 1..Len(e.out) : ok(e.out[s], s), "decode.points")
                  \cup (IF ~e.files THEN {} ELSE Chk(e.found = e.xfound, "decode.files")
                          \* the files carry the decoded coordinates and normals with six decimals
                          \cup Chk(Len(e.fine) = Len(e.xfine) /\ \A s \in 1..Len(e.fine) : IsShape(e.fine[s], e.xfine[s].sh)
                                     /\ \A i \in 1..Len(e.fine[s].v) : \A c \in 1..6 : Close(e.fine[s].v[i][c], e.xfine[s].v[i][c], 3), "decode.saved")
                          \cup Chk(\A s \in 1..Len(e.inp) : IsShape(e.inp[s], e.xin[s].sh)
                                     /\ \A i \in 1..Len(e.xin[s].v) : \A c \in 1..Len(e.xin[s].v[i]) : Close(e.inp[s].v[i][c], e.xin[s].v[i][c], 2), "decode.input_saved")))

-----------------------------------------------------------------------------
(* SemanticKITTI label table: raw id -> training class.  Moving variants are  *)
(* grouped with their static class, everything else is unlabelled (0).        *)
KittiClass(r) ==
  CASE r = 40 -> 1  [] r = 48 -> 2  [] r = 44 -> 3  [] r = 49 -> 4  [] r = 50 -> 5
    [] r \in {10, 252} -> 6  [] r \in {18, 258} -> 7  [] r = 11 -> 8  [] r = 15 -> 9
    [] r \in {20, 259} -> 10  [] r = 70 -> 11  [] r = 71 -> 12  [] r = 72 -> 13
    [] r \in {30, 254} -> 14  [] r \in {31, 253} -> 15  [] r \in {32, 255} -> 16
    [] r = 51 -> 17  [] r = 80 -> 18  [] r = 81 -> 19  [] OTHER -> 0
EvKittiMap(h, e) ==
  Keep(h, IF e.err # "" THEN {"kitti.raised"}
          ELSE Chk(IsShape(e.map, << 260 >>), "kitti.map.size")
               \cup Chk(\A i \in 1..Len(e.map.v) : e.map.v[i] = KittiClass(i - 1), "kitti.map"))

-----------------------------------------------------------------------------
(* readers: exactly the requested attributes, row by row *)
EvRead(h, e) ==
  Keep(h, IF e.err # "" THEN {"read.raised"}
          ELSE Chk(e.keys = e.xkeys, "read.keys")
               \cup Chk(\A i \in 1..Len(e.out) : e.out[i][2].k = "t" /\ e.out[i][2].sh = e.x[i][2].sh
                         /\ e.out[i][2].v = e.x[i][2].v, "read.rows")
               \cup Chk(\A i \in 1..Len(e.out) : e.out[i][2].dt = e.x[i][2].dt, "read.dtype"))

(* normalisations of the dataset readers.  Input coordinates are integers in  *)
(* units of 1/e.un; output in 1/16384; center of the bounding box cc/(2 un).  *)
BMin(P, a) == LET S_ == { P[i][a] : i \in 1..Len(P) } IN CHOOSE x \in S_ : \A y \in S_ : x <= y
BMax(P, a) == LET S_ == { P[i][a] : i \in 1..Len(P) } IN CHOOSE x \in S_ : \A y \in S_ : x >= y
BExt(P) == LET f(a) == BMax(P, a) - BMin(P, a)
               m == IF f(1) > f(2) THEN f(1) ELSE f(2) IN IF f(3) > m THEN f(3) ELSE m
\* value = num/den (exact rational) of coordinate a of point i
NormNum(e, P, i, a) ==
  LET c2 == BMin(P, a) + BMax(P, a)            \* twice the centre
  IN CASE e.kind = "shapenet" -> 8 * (2 * P[i][a] - c2)                 \* den: 10 ext
       [] e.kind = "completion" -> 95 * (2 * P[i][a] - c2)              \* den: 100 ext
       [] e.kind = "kitti" -> 2 * P[i][a] - c2                          \* den: 200 un
       [] e.kind = "scannet" -> 100 * ((2 * P[i][a]) - (IF a = 3 THEN e.un ELSE c2))  \* den: 2048 un
       [] OTHER -> P[i][a]                                              \* den: scale un
NormDen(e, P) ==
  CASE e.kind = "shapenet" -> 10 * BExt(P)
    [] e.kind = "completion" -> 100 * BExt(P)
    [] e.kind = "kitti" -> 200 * e.un
    [] e.kind = "scannet" -> 2048 * e.un
    [] e.kind = "ae" -> e.ps * e.un
    [] OTHER -> e.un
NormPos(e, P, i, a) == (NormNum(e, P, i, a) * PS) \div NormDen(e, P)
BoxLim == 16220                   \* the box [-1, 1] shrunk by the margin 0.01
InBox(e, P, i) == \A a \in 1..3 : LET v == NormPos(e, P, i, a) IN v > -BoxLim + 12 /\ v < BoxLim - 12
OutBox(e, P, i) == \E a \in 1..3 : LET v == NormPos(e, P, i, a) IN v < -BoxLim - 12 \/ v > BoxLim + 12
AttrOk(q, x, idx) == IF ~x.has THEN q.k = "none"
                     ELSE IsT(q) /\ q.sh = << Len(idx), x.c >> /\ \A j \in 1..Len(idx) : q.v[j] = x.v[idx[j]]
EvPrep(h, e) ==
  LET P == e.x
      n == Len(P)
      idx == IF e.clip THEN SelectSeq([i \in 1..n |-> i], LAMBDA i: e.mask.v[i] = 1) ELSE [i \in 1..n |-> i]
      mk == IF ~e.clip THEN {}
            ELSE IF ~IsShape(e.mask, << n >>) THEN {"prep.mask.shape"}
            ELSE Chk(\A i \in 1..n : (InBox(e, P, i) => e.mask.v[i] = 1) /\ (OutBox(e, P, i) => e.mask.v[i] = 0), "prep.mask")
  IN Keep(h,
       IF e.err # "" THEN {"prep.raised"}
       ELSE IF mk # {} THEN mk
       ELSE Chk(IsShape(e.p.pts, << Len(idx), 3 >>), "prep.points.shape")
            \cup (IF IsShape(e.p.pts, << Len(idx), 3 >>)
                  THEN Chk(\A j \in 1..Len(idx) : \A a \in 1..3 : Close(e.p.pts.v[j][a], NormPos(e, P, idx[j], a), 6), "prep.points." \o e.kind) ELSE {})
            \cup Chk(AttrOk(e.p.nrm, e.nrm, idx), "prep.normals")
            \cup Chk(AttrOk(e.p.ft, e.ft, idx), "prep.features")
            \cup Chk(AttrOk(e.p.lb, e.lb, idx), "prep.labels")
            \cup Chk(e.keys = e.xkeys, "prep.keys"))
\* raw KITTI labels <<instance, semantic>> of the kept points
EvKittiLab(h, e) ==
  Keep(h, IF e.err # "" THEN {"kitti.raised"}
          ELSE Chk(IsShape(e.out, << Len(e.raw), 1 >>) /\ \A i \in 1..Len(e.raw) : e.out.v[i][1] = KittiClass(e.raw[i][2]), "kitti.labels"))

\* an octree built from a recorded cloud: every finest non-empty voxel holds a
\* point and every point has its voxel (coordinates e.q in 1/256 voxels, points
\* next to a voxel face may fall on either side)
EvCover(h, e) ==
  LET D == e.depth
      side == 2^D
      c(v) == IF v < 0 THEN 0 ELSE IF v >= side THEN side - 1 ELSE v
      cand(i) == { << 0, c(a), c(b), c(g) >> : a \in {((e.q.v[i][1] - 1) \div 256), ((e.q.v[i][1] + 1) \div 256)},
                                               b \in {((e.q.v[i][2] - 1) \div 256), ((e.q.v[i][2] + 1) \div 256)},
                                               g \in {((e.q.v[i][3] - 1) \div 256), ((e.q.v[i][3] + 1) \div 256)} }
      vox == { << 0, e.vox.v[i][1], e.vox.v[i][2], e.vox.v[i][3] >> : i \in 1..Len(e.vox.v) }
      n == e.q.sh[1]
  IN Keep(h, IF e.err # "" THEN {"cover.raised"}
             ELSE Chk(e.np >= 0 /\ n <= e.np, "cover.count")
                  \cup Chk(\A i \in 1..n : cand(i) \cap vox # {}, "cover.points")
                  \cup Chk(vox \subseteq UNION { cand(i) : i \in 1..n }, "cover.voxels")
                  \cup Chk(\A i \in 1..n : \A a \in 1..3 : e.q.v[i][a] >= -1 /\ e.q.v[i][a] <= (side * 256) + 1, "cover.range")
                  \cup Chk(\A i \in 1..n : \A j \in 1..1 : LET near == { k \in 1..Len(e.src) : \A a \in 1..3 : Close(e.q.v[i][a], e.src[k][a], e.rad) }
                                           IN Len(e.src) = 0 \/ near # {}, "cover.near_source"))

\* augmentations keep attributes in range and rows in place
EvAug(h, e) ==
  Keep(h, IF e.err # "" THEN {"augment.raised"}
          ELSE Chk(IsShape(e.col, e.xsh) /\ \A i \in 1..Len(e.col.v) : \A c \in 1..3 : e.col.v[i][c] >= -1 /\ e.col.v[i][c] <= PS + 1, "augment.color_range")
               \cup Chk(IsShape(e.xyz, e.xsh) /\ \A i \in 1..Len(e.xyz.v) : \A c \in 1..3 : Abs(e.xyz.v[i][c]) < 64 * PS, "augment.points"))

\* image-to-shape samples: the points of the shape with one of its renderings,
\* all of which are eventually drawn
EvViews(h, e) ==
  Keep(h, IF e.err # "" THEN {"views.raised"}
          ELSE Chk(e.seen = [i \in 1..e.num |-> i - 1], "views.renderings")
               \cup Chk(e.modes = <<"RGB", <<"image", "normals", "points">>>>, "views.image")
               \cup Chk(IsT(e.p) /\ e.p.v = e.x /\ IsT(e.n) /\ e.n.v = e.nrm, "views.points"))

HandleEval(h, e) ==
  CASE e.e = "vote" -> EvVote(h, e)
    [] e.e = "votecount" -> EvVoteCount(h, e)
    [] e.e = "score" -> EvScore(h, e)
    [] e.e = "part" -> EvPart(h, e)
    [] e.e = "cls" -> EvCls(h, e)
    [] e.e = "aeloss" -> EvAeLoss(h, e)
    [] e.e = "aepts" -> EvAePts(h, e)
    [] e.e = "kmap" -> EvKittiMap(h, e)
    [] e.e = "klab" -> EvKittiLab(h, e)
    [] e.e = "read" -> EvRead(h, e)
    [] e.e = "prep" -> EvPrep(h, e)
    [] e.e = "cover" -> EvCover(h, e)
    [] e.e = "aug" -> EvAug(h, e)
    [] e.e = "views" -> EvViews(h, e)
    [] OTHER -> Keep(h, {"unknown_event"})
=============================================================================
