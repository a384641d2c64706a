------------------------------ MODULE EvTools --------------------------------
(* The command line tools that prepare data and convert checkpoints.          *)
EXTENDS EvEval

\* raw ScanNet ids of the evaluated classes, 0 = unlabelled first
ScanNet20 == << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 24, 28, 33, 34, 36, 39 >>
ScanNet200 == << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 21, 22, 23, 24, 26,
  27, 28, 29, 31, 32, 33, 34, 35, 36, 38, 39, 40, 41, 42, 44, 45, 46, 47, 48, 49, 50, 51, 52, 54,
  55, 56, 57, 58, 59, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80,
  82, 84, 86, 87, 88, 89, 90, 93, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 110, 112, 115,
  116, 118, 120, 121, 122, 125, 128, 130, 131, 132, 134, 136, 138, 139, 140, 141, 145, 148, 154, 155, 156, 157, 159, 161,
  163, 165, 166, 168, 169, 170, 177, 180, 185, 188, 191, 193, 195, 202, 208, 213, 214, 221, 229, 230, 232, 233, 242, 250,
  261, 264, 276, 283, 286, 300, 304, 312, 323, 325, 331, 342, 356, 370, 392, 395, 399, 408, 417, 488, 540, 562, 570, 572,
  581, 609, 748, 776, 1156, 1163, 1164, 1165, 1166, 1167, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175, 1176, 1178, 1179, 1180, 1181, 1182,
  1183, 1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191 >>
ClassIds(e) == IF e.n200 THEN ScanNet200 ELSE ScanNet20
IdSet(e) == { ClassIds(e)[k] : k \in 1..Len(ClassIds(e)) }
\* training class of a raw id: its position in the list, 0 for all others
TrainId(e, r) == LET c == ClassIds(e)
                     m == { k \in 1..Len(c) : c[k] = r }
                 IN IF m = {} THEN 0 ELSE (CHOOSE k \in m : TRUE) - 1

Sub3(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
Cross3(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]

\* one processed scan.  e.P vertices (1/un), e.R, e.t alignment, e.F faces
\* (0-based), e.col colours and alpha, raw labels directly (20 classes) or by
\* segment groups (200 classes)
ScanAt(e, i) == IF e.al THEN << Dot3(e.R[1], e.P[i]) + e.t[1], Dot3(e.R[2], e.P[i]) + e.t[2], Dot3(e.R[3], e.P[i]) + e.t[3] >> ELSE e.P[i]
FirstId(tab, cat) == LET m == { k \in 1..Len(tab) : tab[k][1] = cat }
                     IN IF m = {} THEN 0 ELSE tab[CHOOSE k \in m : \A j \in m : k <= j][2]
GroupLabel(e, i) ==
  LET m == { g \in 1..Len(e.groups) : \E s \in 1..Len(e.groups[g][2]) : e.groups[g][2][s] = e.seg[i] }
  IN IF m = {} THEN 0
     ELSE LET g == CHOOSE g \in m : \A j \in m : j <= g
              r == FirstId(e.table, e.groups[g][1])
          IN IF r \in IdSet(e) THEN r ELSE 0
EvScan(h, e) ==
  LET n == Len(e.P)
      A_ == TLCEval([i \in 1..n |-> ScanAt(e, i)])
      fn == TLCEval([f \in 1..Len(e.F) |-> Cross3(Sub3(A_[e.F[f][2] + 1], A_[e.F[f][1] + 1]), Sub3(A_[e.F[f][3] + 1], A_[e.F[f][1] + 1]))])
      at(i) == { f \in 1..Len(e.F) : \E k \in 1..3 : e.F[f][k] = i - 1 }
      RECURSIVE add(_)
      add(S_) == IF S_ = {} THEN << 0, 0, 0 >> ELSE LET f == CHOOSE f \in S_ : TRUE IN Vec3(fn[f], add(S_ \ {f}))
      nr == TLCEval([i \in 1..n |-> add(at(i))])
      flat(i) == \A f \in at(i) : fn[f] = << 0, 0, 0 >>
      raw == TLCEval([i \in 1..n |-> IF e.n200 THEN GroupLabel(e, i) ELSE e.raw[i]])
      q == e.out
  IN Keep(h,
       IF e.err # "" THEN {"scan.raised"}
       ELSE Chk(IsShape(q.pts, << n, 3 >>) /\ \A i \in 1..n : \A a \in 1..3 : Close(q.pts.v[i][a], (A_[i][a] * PS) \div e.un, 3), "scan.points")
            \cup Chk(IsShape(q.nrm, << n, 3 >>) /\ \A i \in 1..n : IF nr[i] # << 0, 0, 0 >> THEN UnitVecOk(q.nrm.v[i], nr[i])
                                                                     ELSE flat(i) => q.nrm.v[i] = << 0, 0, 0 >>, "scan.normals")
            \cup Chk(IsShape(q.col, << n, 3 >>) /\ \A i \in 1..n : \A a \in 1..3 : q.col.v[i][a] = e.col[i][a], "scan.colors")
            \cup Chk(IsShape(q.lab, << n >>) /\ \A i \in 1..n : q.lab.v[i] = (IF e.train THEN TrainId(e, raw[i]) ELSE e.col[i][4]), "scan.labels")
            \cup Chk(IF e.train THEN IsShape(e.txt, << n >>) /\ e.txt.v = raw ELSE e.txt.k = "none", "scan.raw_labels")
            \cup Chk(\A k \in 1..Len(e.kept) : e.kept[k][2] = e.kept[k][3], "scan.existing_output_changed")
            \cup Chk(e.found = e.xfound, "scan.files"))

\* crops of a large scan: boxes of 10 m at a stride of 5 m from the lower corner
\* that hold at least 3000 points.  e.G groups of equal points << position, count >>
EvChunks(h, e) ==
  LET n == Len(e.G)
      P == [g \in 1..n |-> e.G[g][1]]
      ext(a) == BMax(P, a) - BMin(P, a)
      C_ == 10 * e.un  S_ == 5 * e.un
      small == \A a \in 1..3 : ext(a) < C_
      num(a) == IF ext(a) <= C_ THEN 1 ELSE ((ext(a) - C_ + S_ - 1) \div S_) + 1
      inb(g, c) == \A a \in 1..3 : LET lo == BMin(P, a) + c[a] * S_ IN P[g][a] >= lo /\ P[g][a] <= lo + C_
      box(m) == << m \div (num(2) * num(3)), (m \div num(3)) % num(2), m % num(3) >>
      cnt(c) == Sum([g \in 1..n |-> IF inb(g, c) THEN e.G[g][2] ELSE 0])
      all == [m \in 1..(num(1) * num(2) * num(3)) |-> box(m - 1)]
      good == TLCEval(IF small THEN <<>> ELSE SelectSeq(all, LAMBDA c: cnt(c) >= 3000))
      exp(c) == [g \in 1..n |-> IF inb(g, c) THEN e.G[g][2] ELSE 0]
  IN Keep(h,
       IF e.err # "" THEN {"chunks.raised"}
       ELSE Chk(Len(e.masks) = Len(good) /\ \A k \in 1..Len(e.masks) : e.masks[k] = exp(good[k]), "chunks.masks")
            \cup Chk(Len(e.rows) = Len(good) /\ \A k \in 1..Len(e.rows) : e.rows[k] = exp(good[k]), "chunks.points")
            \cup Chk(small \/ \A g \in 1..n : e.G[g][2] >= 3000 => \E k \in 1..Len(e.masks) : e.masks[k][g] = e.G[g][2], "chunks.cover")
            \cup Chk(e.order, "chunks.order"))

\* predictions of scans and of their crops merged and mapped to raw ids.
\* e.files[k] = << scan, positions (0-based) it covers, class weights per position >>
EvOutSeg(h, e) ==
  LET row(s, i) == LET f(k) == IF e.files[k][1] # s THEN ZeroVec(e.K)
                               ELSE LET m == { j \in 1..Len(e.files[k][2]) : e.files[k][2][j] = i }
                                    IN IF m = {} THEN ZeroVec(e.K) ELSE e.files[k][3][CHOOSE j \in m : TRUE]
                   IN FoldLeft(LAMBDA a, k: VecAdd(a, f(k)), ZeroVec(e.K), [k \in 1..Len(e.files) |-> k])
      lab(s) == [i \in 1..e.size[s] |-> ClassIds(e)[ArgMax(TLCEval(row(s, i - 1)))]]
      S_ == { e.files[k][1] : k \in 1..Len(e.files) }
  IN Keep(h, IF e.err # "" THEN {"outseg.raised"}
             ELSE Chk({ e.out[k][1] : k \in 1..Len(e.out) } = S_ /\ Len(e.out) = Cardinality(S_), "outseg.files")
                  \cup Chk(\A k \in 1..Len(e.out) : e.out[k][1] \in S_ => e.out[k][2].v = lab(e.out[k][1]), "outseg.labels"))

\* printed accuracy and mean IoU over all evaluated classes (1 / 10^6)
EvScanIou(h, e) ==
  LET ids == TLCEval(IdSet(e) \ {0})
      keep(f) == SelectSeq([i \in 1..Len(f[1]) |-> << f[1][i], f[2][i] >>], LAMBDA p: p[1] \in ids)
      kp == TLCEval([k \in 1..Len(e.files) |-> keep(e.files[k])])
      all == TLCEval(Concat(kp))
      used == { all[i][1] : i \in 1..Len(all) } \cup ({ all[i][2] : i \in 1..Len(all) } \cap ids)
      I_(c) == Cardinality({ i \in 1..Len(all) : all[i][1] = c /\ all[i][2] = c })
      U_(c) == Cardinality({ i \in 1..Len(all) : all[i][1] = c \/ all[i][2] = c })
      RECURSIVE iou(_)
      iou(S_) == IF S_ = {} THEN 0 ELSE LET c == CHOOSE c \in S_ : TRUE IN ((I_(c) * 1000000) \div U_(c)) + iou(S_ \ {c})
      acc(k) == (Cardinality({ i \in 1..Len(kp[k]) : kp[k][i][1] = kp[k][i][2] }) * 1000000) \div Len(kp[k])
  IN Keep(h, IF e.err # "" THEN {"scaniou.raised"}
             ELSE Chk(Close(e.iou, iou(used) \div Cardinality(ids), 2), "scaniou.iou")
                  \cup Chk(Close(e.accu, Sum([k \in 1..Len(kp) |-> acc(k)]) \div Len(kp), 2), "scaniou.accuracy"))

-----------------------------------------------------------------------------
(* file lists *)
KittiSplit(s) ==
  LET tr == << "00", "01", "02", "03", "04", "05", "06", "07", "09", "10" >>
  IN CASE s = "train" -> tr  [] s = "val" -> << "08" >>
       [] s = "test" -> << "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21" >>
       [] s = "train_val" -> tr \o << "08" >>
\* e.seqs[name of the sequence]: its scans in ascending order
EvKittiList(h, e) ==
  LET lines(s) == Concat([k \in 1..Len(KittiSplit(s)) |-> LET q == KittiSplit(s)[k]
                     IN [i \in 1..Len(e.seqs[q]) |-> "dataset/sequences/" \o q \o "/velodyne/" \o e.seqs[q][i] \o " 0"]])
  IN Keep(h, IF e.err # "" THEN {"kittilist.raised"}
             ELSE Chk(e.found = << "test.txt", "train.txt", "train_val.txt", "val.txt" >>, "kittilist.files")
                  \cup Chk(\A k \in 1..Len(e.out) : e.out[k][2] = lines(e.out[k][1]), "kittilist.lines"))

\* ModelNet: e.dirs[k] = << category, training files, test files >> (ascending)
EvM40List(h, e) ==
  LET take(s, pct) == SubSeq(s, 1, ((Len(s) * pct) + 99) \div 100)
      col(sub) == IF sub = "train" THEN 2 ELSE 3
      lines(sub, pct) == Concat([k \in 1..Len(e.dirs) |-> LET f == take(e.dirs[k][col(sub)], pct)
                            IN [i \in 1..Len(f) |-> e.dirs[k][1] \o "/" \o sub \o "/" \o f[i] \o " " \o ToString(k - 1)]])
  IN Keep(h, IF e.err # "" THEN {"m40list.raised"}
             ELSE Chk(e.found = e.xfound, "m40list.files")
                  \cup Chk(\A k \in 1..Len(e.out) : e.out[k][3] = lines(e.out[k][1], e.out[k][2]), "m40list.lines"))

\* ShapeNet segmentation: categories in table order, parts numbered from 0
SegCats == << "02691156", "02773838", "02954340", "02958343", "03001627", "03261776", "03467517", "03624134",
              "03636649", "03642806", "03790512", "03797390", "03948459", "04099429", "04225987", "04379243" >>
SegNum == << 4, 2, 2, 4, 4, 3, 3, 2, 4, 2, 6, 2, 3, 3, 3, 3 >>
\* e.lists = << train, val, test >> of << category, shape >>
EvSegList(h, e) ==
  LET own(s, c) == LET f == SelectSeq(s, LAMBDA p: p[1] = SegCats[c])
                   IN [i \in 1..Len(f) |-> f[i][1] \o "/" \o f[i][2] \o ".ply " \o ToString(c - 1)]
  IN Keep(h, IF e.err # "" THEN {"seglist.raised"}
             ELSE Chk(Len(e.out) = 32 /\ e.stray = 0, "seglist.files")
                  \cup Chk(\A k \in 1..Len(e.out) : LET c == e.out[k][1] IN
                         e.out[k][3] = IF e.out[k][2] = "train_val" THEN own(e.lists[1], c) \o own(e.lists[2], c) ELSE own(e.lists[3], c), "seglist.lines"))
\* parts of category c are numbered from the total number of earlier parts
EvSegPly(h, e) ==
  LET base(c) == IF c = 1 THEN 0 ELSE Sum(SubSeq(SegNum, 1, c - 1))
  IN Keep(h, IF e.err # "" THEN {"segply.raised"}
             ELSE Chk(Len(e.out) = Len(e.x), "segply.files")
                  \cup Chk(\A k \in 1..Len(e.out) : LET q == e.out[k] x == e.x[k] IN
                        /\ q.pts.v = x.pts /\ q.nrm.v = x.nrm
                        /\ q.lab.v = [i \in 1..Len(x.lab) |-> x.lab[i] - base(x.c)], "segply.rows"))
\* a list with every shape name completed by the suffix of the stored files
EvAeList(h, e) ==
  Keep(h, IF e.err # "" THEN {"aelist.raised"}
          ELSE Chk(\A k \in 1..Len(e.out) : e.out[k][2] = [i \in 1..Len(e.names) |-> e.names[i] \o e.out[k][1] \o " 0"], "aelist.lines")
               \cup Chk(Len(e.out) = 2 /\ e.same, "aelist.files"))
\* the first four fifths of the shapes of each category that have both data
EvImgList(h, e) ==
  LET both(k) == LET c == e.cats[k] IN SelectSeq(c[2], LAMBDA f: \E j \in 1..Len(c[3]) : c[3][j] = f)
      nm(k) == LET b == both(k) IN [i \in 1..Len(b) |-> e.cats[k][1] \o "/" \o b[i]]
      cut(k) == (Len(nm(k)) * 4) \div 5
      n == Len(e.cats)
  IN Keep(h, IF e.err # "" THEN {"imglist.raised"}
             ELSE Chk(e.train = Concat([k \in 1..n |-> SubSeq(nm(k), 1, cut(k))]), "imglist.train")
                  \cup Chk(e.test = Concat([k \in 1..n |-> SubSeq(nm(k), cut(k) + 1, Len(nm(k)))]), "imglist.test"))

\* every file converted, with the same points and normals
EvConv(h, e) ==
  LET nm(s) == { s[k][1] : k \in 1..Len(s) }
  IN Keep(h, IF e.err # "" THEN {"conv.raised"}
             ELSE Chk(nm(e.out) = nm(e.x) /\ Len(e.out) = Len(e.x), "conv.files")
                  \cup Chk(\A k \in 1..Len(e.out) : \A j \in 1..Len(e.x) : e.out[k][1] = e.x[j][1] =>
                         e.out[k][2].sh = e.x[j][2].sh /\ e.out[k][2].v = e.x[j][2].v
                         /\ e.out[k][3].sh = e.x[j][3].sh /\ e.out[k][3].v = e.x[j][3].v, "conv.values"))

\* points sampled on a box mesh: each lies on the face of its normal; normalised
\* to the unit box.  e.lo, e.hi: corners (1/un) of the mesh; the alignment turns
\* <<x, y, z>> into <<y, z, x>>
EvMesh(h, e) ==
  LET axes(v) == IF e.al THEN << v[2], v[3], v[1] >> ELSE v
      lo_ == axes(e.lo)
      hi_ == axes(e.hi)
      ex(a) == hi_[a] - lo_[a]
      m == LET x == IF ex(1) > ex(2) THEN ex(1) ELSE ex(2) IN IF ex(3) > x THEN ex(3) ELSE x
      n == e.num
      \* normalised by the bounding box of the samples, which is not larger than the mesh
      lim(a) == IF e.norm THEN PS + 4 ELSE ((hi_[a] * PS) \div e.un) + 4
      low(a) == IF e.norm THEN -PS - 4 ELSE ((lo_[a] * PS) \div e.un) - 4
      axis(v) == \E a \in 1..3 : Abs(v[a]) >= Scale - 2 /\ \A b \in (1..3) \ {a} : Abs(v[b]) <= 2
      ax(v) == CHOOSE a \in 1..3 : Abs(v[a]) >= Scale - 2
      side(v) == IF v[ax(v)] > 0 THEN 1 ELSE -1
  IN Keep(h, IF e.err # "" THEN {"mesh.raised"}
             ELSE Chk(e.found = e.xfound, "mesh.files")
                  \cup Chk(IsShape(e.pts, << n, 3 >>) /\ IsShape(e.nrm, << n, 3 >>), "mesh.count")
                  \cup Chk(\A i \in 1..n : axis(e.nrm.v[i]), "mesh.normals")
                  \cup Chk(\A i \in 1..n : \A a \in 1..3 : e.pts.v[i][a] <= lim(a) /\ e.pts.v[i][a] >= low(a), "mesh.range")
                  \cup Chk(\A i, j \in 1..n : (axis(e.nrm.v[i]) /\ axis(e.nrm.v[j]) /\ ax(e.nrm.v[i]) = ax(e.nrm.v[j])) =>
                         LET a == ax(e.nrm.v[i]) d == side(e.nrm.v[i]) - side(e.nrm.v[j])
                         IN IF d = 0 THEN Close(e.pts.v[i][a], e.pts.v[j][a], 4)
                            ELSE ((e.pts.v[i][a] - e.pts.v[j][a]) * d > 0), "mesh.on_face")
                  \cup (IF e.norm THEN Chk(\E a \in 1..3 : LET S_ == { e.pts.v[i][a] : i \in 1..n }
                                                            IN (\E x \in S_ : x >= PS - 8) /\ (\E x \in S_ : x <= 8 - PS), "mesh.normalised") ELSE {}))

-----------------------------------------------------------------------------
(* checkpoints *)
LastN(s, k) == IF k > Len(s) THEN "" ELSE s[Len(s) - k + 1]
HasC(s, c) == \E k \in 1..Len(s) : s[k] = c
\* legacy names: convolution weights (out, in * kernel) become (kernel, in, out);
\* 1x1 convolutions become linear layers
IsConvW(s) == LastN(s, 1) \in {"weight", "weights"} /\ LastN(s, 2) \in {"conv", "deconv"}
IsOneW(s) == LastN(s, 1) = "weight" /\ LastN(s, 2) = "conv1x1"
IsOneB(s) == LastN(s, 1) = "bias" /\ LastN(s, 2) = "conv1x1"
KernelNum(s) == IF HasC(s, "downsample") \/ HasC(s, "upsample") THEN 8 ELSE 27
NewName(s) ==
  LET p(k) == SubSeq(s, 1, Len(s) - k)
  IN CASE IsOneW(s) /\ LastN(s, 3) = "conv1x1" -> p(3) \o << "conv", "linear", "weight" >>
       [] IsOneW(s) -> p(2) \o << "linear", "weight" >>
       [] IsOneB(s) -> p(2) \o << "linear", "bias" >>
       [] OTHER -> s
UpOk(old, nw, s) ==
  IF IsConvW(s)
  THEN LET K == KernelNum(s)  O_ == old.sh[1]  I_ == old.sh[2] \div K
       IN IsShape(nw, << K, I_, O_ >>)
          /\ \A k \in 1..K : \A i \in 1..I_ : \A o \in 1..O_ : nw.v[k][i][o] = old.v[o][((i - 1) * K) + k]
  ELSE IF IsOneW(s) THEN IsShape(nw, << old.sh[1], old.sh[2] >>)
       /\ \A o \in 1..old.sh[1] : \A i \in 1..old.sh[2] : nw.v[o][i] = old.v[o][i][1]
  ELSE nw.sh = old.sh /\ nw.v = old.v
\* e.x[k] = << name parts, tensor >>, e.out likewise
EvUpgrade(h, e) ==
  LET names == { NewName(e.x[k][1]) : k \in 1..Len(e.x) }
      got == { e.out[k][1] : k \in 1..Len(e.out) }
  IN Keep(h, IF e.err # "" THEN {"upgrade.raised"}
             ELSE Chk(got = names /\ Len(e.out) = Len(e.x), "upgrade.names")
                  \cup Chk(\A k \in 1..Len(e.x) : \A j \in 1..Len(e.out) :
                         e.out[j][1] = NewName(e.x[k][1]) => UpOk(e.x[k][2], e.out[j][2], e.x[k][1]), "upgrade.values")
                  \cup Chk(e.loads, "upgrade.loads") \cup Chk(e.same, "upgrade.original_changed")
                  \cup Chk(e.found = e.xfound, "upgrade.files"))
\* clean-up keeps the second last checkpoint of each run (or its only one)
EvClean(h, e) ==
  LET gone(f) == IF Len(f) <= 1 THEN <<>> ELSE SubSeq(f, 1, Len(f) - 2) \o << f[Len(f)] >>
      exp == UNION { LET g == gone(e.runs[k][2]) IN { e.runs[k][1] \o "/checkpoints/" \o g[i] : i \in 1..Len(g) } : k \in 1..Len(e.runs) }
  IN Keep(h, IF e.err # "" THEN {"clean.raised"}
             ELSE Chk({ e.removed[k] : k \in 1..Len(e.removed) } = exp /\ Len(e.removed) = Cardinality(exp), "clean.removed")
                  \cup Chk(e.kept, "clean.other_files"))
\* listing of the variables and the total number of parameters
EvParse(h, e) ==
  LET kept == SelectSeq(e.vars, LAMBDA v: ~\E k \in 1..Len(e.skips) : HasC(v[1], e.skips[k]))
      RECURSIVE prod(_)
      prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * prod(Tail(s))
      n == Len(kept)
  IN Keep(h, IF e.err # "" THEN {"parse.raised"}
             ELSE Chk(e.out = [k \in 1..n |-> << k - 1, kept[k][1], kept[k][2], prod(kept[k][2]) >>], "parse.lines")
                  \cup Chk(e.total = Sum([k \in 1..n |-> prod(kept[k][2])]), "parse.total"))

-----------------------------------------------------------------------------
(* data sets, networks and configurations assembled by the solvers            *)
\* e.list[k] = << file, label, whether a label is given >>, e.ids: points per file
EvData(h, e) ==
  LET n == IF e.take < 1 \/ e.take > Len(e.list) THEN Len(e.list) ELSE e.take
      pts(f) == LET m == { j \in 1..Len(e.ids) : e.ids[j][1] = f } IN e.ids[CHOOSE j \in m : TRUE][2]
      item(k) == << e.list[k][1], IF e.list[k][3] THEN e.list[k][2] ELSE 0, pts(e.list[k][1]) >>
      x == [k \in 1..n |-> item(k)]
      common == {"filename", "inbox_mask", "label", "octree", "points"}
      keys == CASE e.kind = "scannet" -> common \ {"octree"}
                [] e.kind = "image" -> common \cup {"image"}
                [] e.kind = "completion" -> (common \ {"inbox_mask"}) \cup {"octree_gt", "points_gt"}
                [] OTHER -> common
      set(s) == { s[j] : j \in 1..Len(s) }
  IN Keep(h, IF e.err # "" THEN {"data.raised"}
             ELSE Chk(e.n = n /\ e.items = x, "data.items")
                  \cup Chk(set(e.keys) = keys /\ set(e.bkeys) = keys, "data.keys")
                  \cup Chk(\A k \in 1..Len(e.oct) : e.oct[k] = <<>> \/ e.oct[k] = << e.depth, e.full, 1 >>, "data.octree")
                  \cup Chk(e.again, "data.repeatable") \cup Chk(e.raw, "data.memory_changed")
                  \cup Chk(e.bnames = [k \in 1..n |-> x[k][1]] /\ IsShape(e.blab, << n >>) /\ e.blab.v = [k \in 1..n |-> x[k][2]] /\ e.blab.dt = "i64", "data.batch")
                  \cup Chk(e.bnpt = [k \in 1..n |-> x[k][3]] /\ e.bs = n, "data.batch_points")
                  \cup Chk(e.mode = (IF e.kind \in {"shapenet", "kitti"} THEN "merged" ELSE "list"), "data.batch_mode")
                  \cup (IF e.kind # "image" THEN {}
                         ELSE Chk(Len(e.img) = n /\ \A k \in 1..n : e.img[k][1] = x[k][3] /\ e.img[k][2] \in 0..23 /\ e.img[k][3] = 7
                                    /\ SubSeq(e.img[k], 4, 6) = << 3, 64, 64 >>, "data.image_of_shape")
                              \cup Chk(IsShape(e.bimg, << n >>) /\ e.bimg.v = [k \in 1..n |-> x[k][3]], "data.batch_image")))

\* the network of a configuration: class and arguments
ModelOf(task, cls, f) ==
  LET cs == [in_channels |-> f.channel, out_channels |-> f.nout, stages |-> f.stages, nempty |-> f.nempty]
      au(o) == [channel_in |-> f.channel, channel_out |-> o, depth |-> f.depth, full_depth |-> f.full_depth, feature |-> f.feature]
  IN CASE task = "cls" /\ cls \in {"LeNet", "HRNet"} -> cs
       [] task = "cls" /\ cls = "ResNet" -> cs @@ [resblock_num |-> f.resblock_num]
       [] task = "seg" /\ cls = "SegNet" -> cs @@ [interp |-> f.interp]
       [] task = "seg" /\ cls = "UNet" -> [in_channels |-> f.channel, out_channels |-> f.nout, interp |-> f.interp, nempty |-> f.nempty]
       [] task = "ae" -> au(f.channel_out)
       [] task = "completion" -> au(f.nout)
       [] task = "image" -> [channel_out |-> f.channel_out, depth |-> f.depth, full_depth |-> f.full_depth]
\* e.ref / e.ro: parameters and outputs of that network built directly; e.sd / e.mo:
\* of the solver's network, with the same parameter values
EvModel(h, e) ==
  Keep(h, IF e.err # "" THEN {"model.raised"}
          ELSE Chk(e.kw = ModelOf(e.task, e.cls, e.flags), "model.reference")
               \cup Chk(e.sd = e.ref, "model.parameters")
               \cup Chk(Len(e.mo) = Len(e.ro) /\ \A k \in 1..Len(e.ro) : e.mo[k].sh = e.ro[k].sh /\ e.mo[k].v = e.ro[k].v, "model.output"))
EvUnknown(h, e) == Keep(h, IF e.err # "" THEN {"unknown.raised"} ELSE Chk(~e.ok, "unknown.accepted"))

EvCfg(h, e) ==
  LET set(s) == { s[j] : j \in 1..Len(s) }
      fch == CASE e.kind = "kitti" -> 1 [] e.kind = "scannet" -> 3 [] OTHER -> 0
      one(c) == CASE c \in {"N", "L", "P"} -> 3 [] c = "D" -> 1 [] c = "F" -> fch [] OTHER -> -100
      wid == IF Len(e.feature) = 0 THEN 0 ELSE Sum([k \in 1..Len(e.feature) |-> one(e.feature[k])])
      per(p, a, b) == { p \o ToString(d) : d \in a..b }
      keys(s) == CASE e.task = "cls" -> { s \o "/loss", s \o "/accu" }
                   [] e.task = "seg" -> { s \o "/loss", s \o "/accu" } \cup
                        (IF s = "train" THEN {} ELSE { s \o "/mIoU" } \cup per(s \o "/intsc_", 0, e.nclass - 1) \cup per(s \o "/union_", 0, e.nclass - 1))
                   [] OTHER -> { s \o "/loss", s \o "/loss_reg" } \cup per(s \o "/loss_", e.mfull, e.mdepth) \cup per(s \o "/accu_", e.mfull, e.mdepth)
  IN Keep(h, IF e.err # "" THEN {"cfg.raised"}
             ELSE Chk(e.task = "image" \/ e.channel = wid, "cfg.channels")
                  \cup Chk(e.task \notin {"cls", "seg"} \/ (e.width = wid /\ e.rows), "cfg.input")
                  \cup Chk(e.task \notin {"cls", "seg"} \/ e.run # "train" \/ e.nout = e.nclass, "cfg.classes")
                  \cup Chk(e.run # "train" \/ set(e.keys.train) = keys("train"), "cfg.train_output")
                  \cup Chk(e.run # "train" \/ set(e.keys.test) = keys("test"), "cfg.test_output")
                  \cup Chk(e.fin, "cfg.finite") \cup Chk(e.nograd = <<>>, "cfg.gradients")
                  \cup Chk(e.files = e.xfiles, "cfg.eval_files")
                  \cup Chk(e.mdepth = -1 \/ (e.depth.test = e.mdepth /\ e.full.test = e.mfull), "cfg.depth")
                  \cup Chk(e.run # "train" \/ (e.depth.train = e.depth.test /\ e.full.train = e.full.test), "cfg.train_test_depth"))

HandleTools(h, e) ==
  CASE e.e = "data" -> EvData(h, e)
    [] e.e = "model" -> EvModel(h, e)
    [] e.e = "unknown" -> EvUnknown(h, e)
    [] e.e = "cfg" -> EvCfg(h, e)
    [] e.e = "scan" -> EvScan(h, e)
    [] e.e = "chunks" -> EvChunks(h, e)
    [] e.e = "outseg" -> EvOutSeg(h, e)
    [] e.e = "scaniou" -> EvScanIou(h, e)
    [] e.e = "kittilist" -> EvKittiList(h, e)
    [] e.e = "m40list" -> EvM40List(h, e)
    [] e.e = "seglist" -> EvSegList(h, e)
    [] e.e = "segply" -> EvSegPly(h, e)
    [] e.e = "aelist" -> EvAeList(h, e)
    [] e.e = "imglist" -> EvImgList(h, e)
    [] e.e = "conv" -> EvConv(h, e)
    [] e.e = "mesh" -> EvMesh(h, e)
    [] e.e = "upgrade" -> EvUpgrade(h, e)
    [] e.e = "clean" -> EvClean(h, e)
    [] e.e = "parse" -> EvParse(h, e)
    [] OTHER -> Keep(h, {"unknown_event"})
=============================================================================
