------------------------------ MODULE NetModel -------------------------------
(* The architectures, as straight-line programs over the layer operators.     *)
(*                                                                            *)
(* An instruction [o, y, x, p, d, k, s, n] applies operator o at octree depth *)
(* d to the registers x with the parameters stored under the path p and       *)
(* defines register y.  Registers are assigned once.  "in" is the input       *)
(* feature, "pts" the query points, "code" a shape code.  c: the number of    *)
(* output channels (COUT: those of the network), b: whether there is a bias.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

I(op, y, x, p, d) == << [o |-> op, y |-> y, x |-> x, p |-> p, d |-> d, k |-> "333", s |-> 1, n |-> "", c |-> 0, b |-> FALSE] >>
IK(op, y, x, p, d, k, s, c) == << [o |-> op, y |-> y, x |-> x, p |-> p, d |-> d, k |-> k, s |-> s, n |-> "", c |-> c, b |-> FALSE] >>
IN_(op, y, x, p, d, n) == << [o |-> op, y |-> y, x |-> x, p |-> p, d |-> d, k |-> "333", s |-> 1, n |-> n, c |-> 0, b |-> FALSE] >>
\* a linear layer with c output channels
L(y, x, p, d, c, b) == << [o |-> "lin", y |-> y, x |-> x, p |-> p, d |-> d, k |-> "333", s |-> 1, n |-> "", c |-> c, b |-> b] >>
CIN == -1
COUT == -2
S(n) == ToString(n)

\* conv + bn (+ relu)
ConvBn(p, y, x, d, k, s, c) ==
  IK("conv", y \o "#c", <<x>>, p \o ".conv", d, k, s, c) \o I("bn", y, <<y \o "#c">>, p \o ".bn", d)
ConvBnRelu(p, y, x, d, k, s, c) == ConvBn(p, y \o "#b", x, d, k, s, c) \o I("relu", y, <<y \o "#b">>, "", d)
DeconvBnRelu(p, y, x, d, k, s, c) ==
  IK("deconv", y \o "#c", <<x>>, p \o ".deconv", d, k, s, c) \o I("bn", y \o "#b", <<y \o "#c">>, p \o ".bn", d)
  \o I("relu", y, <<y \o "#b">>, "", d)
LinBn(p, y, x, c) == L(y \o "#c", <<x>>, p \o ".conv.linear", 0, c, FALSE) \o I("bn", y, <<y \o "#c">>, p \o ".bn", 0)
LinBnRelu(p, y, x, c) == LinBn(p, y \o "#b", x, c) \o I("relu", y, <<y \o "#b">>, "", 0)

\* bottleneck block at depth d (after pooling if stride 2)
ResBlock(p, y, x, d, ci, co, st, bn) ==
  LET x1 == IF st = 2 THEN y \o "#p" ELSE x
      d1 == IF st = 2 THEN d - 1 ELSE d
  IN (IF st = 2 THEN I("maxpool", y \o "#p", <<x>>, "", d) ELSE <<>>)
     \o LinBnRelu(p \o ".conv1x1a", y \o "#1", x1, co \div bn)
     \o ConvBnRelu(p \o ".conv3x3", y \o "#2", y \o "#1", d1, "333", 1, co \div bn)
     \o LinBn(p \o ".conv1x1b", y \o "#3", y \o "#2", co)
     \o (IF ci # co THEN LinBn(p \o ".conv1x1c", y \o "#s", x1, co) ELSE <<>>)
     \o I("add", y \o "#a", << y \o "#3", IF ci # co THEN y \o "#s" ELSE x1 >>, "", d1)
     \o I("relu", y, <<y \o "#a">>, "", d1)
\* basic block
ResBlock2(p, y, x, d, ci, co, st, bn) ==
  LET x1 == IF st = 2 THEN y \o "#p" ELSE x
      d1 == IF st = 2 THEN d - 1 ELSE d
  IN (IF st = 2 THEN I("maxpool", y \o "#p", <<x>>, "", d) ELSE <<>>)
     \o ConvBnRelu(p \o ".conv3x3a", y \o "#1", x1, d1, "333", 1, co \div bn)
     \o ConvBn(p \o ".conv3x3b", y \o "#2", y \o "#1", d1, "333", 1, co)
     \o (IF ci # co THEN LinBn(p \o ".conv1x1", y \o "#s", x1, co) ELSE <<>>)
     \o I("add", y \o "#a", << y \o "#2", IF ci # co THEN y \o "#s" ELSE x1 >>, "", d1)
     \o I("relu", y, <<y \o "#a">>, "", d1)
RECURSIVE ResBlocksR(_, _, _, _, _, _, _, _, _, _)
ResBlocksR(p, y, x, d, ci, co, n, kind, bn, i) ==
  LET yi == IF i = n - 1 THEN y ELSE y \o "%" \o S(i)
      q  == p \o ".resblks." \o S(i)
      b  == IF kind = 1 THEN ResBlock(q, yi, x, d, ci, co, 1, bn) ELSE ResBlock2(q, yi, x, d, ci, co, 1, bn)
  IN b \o (IF i = n - 1 THEN <<>> ELSE ResBlocksR(p, y, yi, d, co, co, n, kind, bn, i + 1))
ResBlocks(p, y, x, d, ci, co, n, kind, bn) == ResBlocksR(p, y, x, d, ci, co, n, kind, bn, 0)

RECURSIVE CatS(_, _, _)
CatS(f(_), i, n) == IF i > n THEN <<>> ELSE f(i) \o CatS(f, i + 1, n)

Pow2(n) == 2^n
Mx(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* classification *)
ResNet(D, St, R) ==
  LET ch(i) == Pow2(Mx(i + 9 - St, 2))
  IN ConvBnRelu("conv1", "c", "in", D, "333", 1, ch(0))
     \o I("maxpool", "p0", <<"c">>, "", D)
     \o CatS(LAMBDA i: ResBlocks("resblocks." \o S(i), "r" \o S(i), "p" \o S(i), D - i - 1, ch(i), ch(i + 1), R, 1, 4)
                       \o I("maxpool", "p" \o S(i + 1), <<"r" \o S(i)>>, "", D - i - 1), 0, St - 2)
     \o I("gpool", "g", <<"p" \o S(St - 1)>>, "", D - St)
     \o L("f1", <<"g">>, "header.0.fc", 0, 512, FALSE) \o I("bn", "f2", <<"f1">>, "header.0.bn", 0)
     \o I("relu", "f3", <<"f2">>, "", 0) \o L("out", <<"f3">>, "header.2", 0, COUT, TRUE)

LeNet(D, St) ==
  CatS(LAMBDA i: ConvBnRelu("convs." \o S(i), "c" \o S(i), IF i = 0 THEN "in" ELSE "p" \o S(i - 1), D - i, "333", 1, Pow2(Mx(i + 7 - St, 2)))
                 \o I("maxpool", "p" \o S(i), <<"c" \o S(i)>>, "", D - i), 0, St - 1)
  \o I("voxel", "v", <<"p" \o S(St - 1)>>, "", D - St) \o I("flatten", "v1", <<"v">>, "", 0)
  \o L("f1", <<"v1">>, "header.1.fc", 0, 128, FALSE) \o I("bn", "f2", <<"f1">>, "header.1.bn", 0)
  \o I("relu", "f3", <<"f2">>, "", 0) \o L("out", <<"f3">>, "header.3", 0, COUT, TRUE)

HCh == <<128, 256, 512, 512>>
RECURSIVE Downs(_, _, _, _, _)
\* pooling from depth a down to depth b; the result is register y
Downs(y, x, a, b, i) ==
  IF a = b THEN I("id", y, <<x>>, "", a)
  ELSE LET t == y \o "~" \o S(i) IN I("maxpool", t, <<x>>, "", a) \o Downs(y, t, a - 1, b, i + 1)
RECURSIVE Ups(_, _, _, _, _)
Ups(y, x, a, b, i) ==
  IF a = b THEN I("id", y, <<x>>, "", a)
  ELSE LET t == y \o "~" \o S(i) IN I("upsample", t, <<x>>, "", a) \o Ups(y, t, a + 1, b, i + 1)
Trans(p, y, x, di, do, ci, co) ==
  IF di > do
  THEN Downs(y \o "#d", x, di, do, 0)
       \o (IF ci # co THEN LinBnRelu(p \o ".conv1x1", y, y \o "#d", co) ELSE I("id", y, <<y \o "#d">>, "", do))
  ELSE IF di < do
  THEN (IF ci # co THEN LinBnRelu(p \o ".conv1x1", y \o "#d", x, co) ELSE I("id", y \o "#d", <<x>>, "", di))
       \o Ups(y, y \o "#d", di, do, 0)
  ELSE I("id", y, <<x>>, "", di)
Branch(i, d) ==      \* stage i has i + 1 branches
  CatS(LAMBDA b: ResBlocks("branches." \o S(i) \o ".resblocks." \o S(b), "b" \o S(i) \o "." \o S(b),
                           "t" \o S(i) \o "." \o S(b), d - b, HCh[b + 1], HCh[b + 1], 3, 1, IF HCh[b + 1] < 256 THEN 4 ELSE 8), 0, i)
Transit(i, d) ==     \* i + 1 inputs to i + 2 outputs
  CatS(LAMBDA b:
         CatS(LAMBDA a: Trans("transitions." \o S(i) \o ".trans_func." \o S(a * (i + 2) + b),
                              "x" \o S(i) \o "." \o S(a) \o "." \o S(b), "b" \o S(i) \o "." \o S(a),
                              d - a, d - b, HCh[a + 1], HCh[b + 1]), 0, i)
         \o I("add", "t" \o S(i + 1) \o "." \o S(b),
              [a \in 1..(i + 1) |-> "x" \o S(i) \o "." \o S(a - 1) \o "." \o S(b)], "", d - b), 0, i + 1)
HRNet(D, St) ==
  LET d == D - 1
  IN ConvBnRelu("front.conv.0", "f0", "in", D, "333", 1, 32) \o I("maxpool", "f1", <<"f0">>, "", D)
     \o ConvBnRelu("front.conv.1", "t0.0", "f1", d, "333", 1, HCh[1])
     \o CatS(LAMBDA i: Branch(i, d) \o (IF i < St - 1 THEN Transit(i, d) ELSE <<>>), 0, St - 1)
     \o CatS(LAMBDA b: Downs("h" \o S(b), "b" \o S(St - 1) \o "." \o S(b), d - b, 2, 0), 0, St - 1)
     \o I("cat", "h", [b \in 1..St |-> "h" \o S(b - 1)], "", 2)
     \o LinBnRelu("cls_header.conv1x1", "hc", "h", 1024) \o I("gpool", "g", <<"hc">>, "", 2)
     \o L("out", <<"g">>, "cls_header.header.1", 0, COUT, TRUE)

-----------------------------------------------------------------------------
(* segmentation *)
SegHead(x, D, meth, hd) ==
  IN_("interp", "q", <<x>>, "", D, meth) \o LinBnRelu("header.0", "h", "q", hd) \o L("out", <<"h">>, "header.1.linear", 0, COUT, TRUE)
SegNet(D, St, meth) ==
 LET ch(i) == Pow2(Mx(i + 8 - St, 2)) IN
  CatS(LAMBDA i: ConvBnRelu("convs." \o S(i), "c" \o S(i), IF i = 0 THEN "in" ELSE "p" \o S(i - 1), D - i, "333", 1, ch(i))
                 \o I("maxpoolidx", "p" \o S(i), <<"c" \o S(i)>>, "", D - i), 0, St - 1)
  \o ConvBnRelu("bottleneck", "u", "p" \o S(St - 1), D - St, "333", 1, ch(St - 1))
  \o CatS(LAMBDA i: LET d == D - St + i IN
            I("unpool", "w" \o S(i), << IF i = 0 THEN "u" ELSE "v" \o S(i - 1), "p" \o S(St - 1 - i) \o "!" >>, "", d)
            \o ConvBnRelu("deconvs." \o S(i), "v" \o S(i), "w" \o S(i), d + 1, "333", 1, ch(IF i = St - 1 THEN 0 ELSE St - 2 - i)), 0, St - 1)
  \o SegHead("v" \o S(St - 1), D, meth, 64)

\* c: encoder channels, dc: decoder channels, eb/db: numbers of blocks, kind of block
UNet(D, c, dc, eb, db, kind, meth, hd, bn) ==
  LET E == Len(eb)  G == Len(db)
      enc(i) == IF i = 0 THEN "e0" ELSE "e" \o S(i)
  IN ConvBnRelu("conv1", "e0", "in", D, "333", 1, c[1])
     \o CatS(LAMBDA i: ConvBnRelu("downsample." \o S(i), "s" \o S(i), enc(i), D - i, "222", 2, c[i + 2])
                       \o ResBlocks("encoder." \o S(i), enc(i + 1), "s" \o S(i), D - i - 1, c[i + 2], c[i + 2], eb[i + 1], kind, bn), 0, E - 1)
     \o CatS(LAMBDA i: LET d == D - E + i IN
               DeconvBnRelu("upsample." \o S(i), "a" \o S(i), IF i = 0 THEN enc(E) ELSE "g" \o S(i - 1), d, "222", 2, dc[i + 2])
               \o I("cat", "k" \o S(i), << enc(E - 1 - i), "a" \o S(i) >>, "", d + 1)
               \o ResBlocks("decoder." \o S(i), "g" \o S(i), "k" \o S(i), d + 1, dc[i + 2] + c[E - i], dc[i + 2], db[i + 1], kind, bn), 0, G - 1)
     \o SegHead("g" \o S(G - 1), D - E + G, meth, hd)

-----------------------------------------------------------------------------
(* auto-encoders *)
Head2(p, y, x, c) == LinBnRelu(p \o ".0", y \o "#h", x, 64) \o L(y, <<y \o "#h">>, p \o ".1.linear", 0, c, TRUE)
\* encoder: registers z<d>, d = full..depth
\* channels of the layers, by depth
AeCh == << 512, 512, 256, 256, 128, 128, 32, 32, 16, 16 >>
I2sCh == << 512, 512, 256, 256, 128, 128, 64, 64, 32, 32 >>
Encoder(D, F) ==
 LET ch(d) == AeCh[d + 1] IN
  ConvBnRelu("conv1", "y" \o S(D), "in", D, "333", 1, ch(D))
  \o CatS(LAMBDA i: LET d == D - i IN
            ResBlocks("encoder_blks." \o S(i), "z" \o S(d), "y" \o S(d), d, ch(d), ch(d), 2, 1, 4)
            \o (IF d > F THEN ConvBnRelu("downsample." \o S(i), "y" \o S(d - 1), "z" \o S(d), d, "222", 2, ch(d - 1)) ELSE <<>>), 0, D - F)
\* decoder on the output octree; skip: add the aligned encoder features
\* (instructions marked "out" work on the output octree)
OnOut(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.n = "out"]]
Decoder(D, F, code, skip, chs, cc) == LET ch(d) == IF d = F THEN cc ELSE chs[d + 1] IN OnOut(
  CatS(LAMBDA i: LET d == F + i IN
     (IF d = F THEN I("id", "k" \o S(d), <<code>>, "", d)
      ELSE DeconvBnRelu("upsample." \o S(i - 1), "u" \o S(d), "v" \o S(d - 1), d - 1, "222", 2, ch(d))
           \o (IF skip THEN I("align", "w" \o S(d), <<"z" \o S(d)>>, "", d)
                            \o I("add", "k" \o S(d), <<"u" \o S(d), "w" \o S(d)>>, "", d)
               ELSE I("id", "k" \o S(d), <<"u" \o S(d)>>, "", d)))
     \o ResBlocks("decoder_blks." \o S(i), "v" \o S(d), "k" \o S(d), d, ch(d), ch(d), 2, 1, 4)
     \o Head2("predict." \o S(i), "logit" \o S(d), "v" \o S(d), 2), 0, D - F)
  \o Head2("header", "sg", "v" \o S(D), COUT) \o I("tanh", "sg1", <<"sg">>, "", D) \o I("depad", "signal", <<"sg1">>, "", D))
AE(D, F, cc) == Encoder(D, F) \o L("proj", <<"z" \o S(F)>>, "proj", F, cc, TRUE) \o I("tanh", "code", <<"proj">>, "", F)
            \o Decoder(D, F, "code", FALSE, AeCh, cc)
OUNet(D, F) == Encoder(D, F) \o Decoder(D, F, "z" \o S(F), TRUE, AeCh, AeCh[F + 1])
I2S(D, F, cc) == Decoder(D, F, "code", FALSE, I2sCh, cc)
-----------------------------------------------------------------------------
(* the shapes of all parameters of a program: channels are inferred along the *)
(* registers from those of the input feature (ci) and of a given code         *)
KDim(k) == IF k = "222" THEN 8 ELSE 27
\* widths: register -> channels
RECURSIVE WidthOf(_, _, _)
WidthOf(p, i, w) ==
  IF i > Len(p) THEN w
  ELSE LET q == p[i]
           SumW(xs) == LET RECURSIVE T(_)
                           T(k) == IF k > Len(xs) THEN 0 ELSE w[xs[k]] + T(k + 1)
                       IN T(1)
           c == CASE q.o \in {"conv", "deconv", "lin"} -> q.c
                  [] q.o = "cat" -> SumW(q.x)
                  [] q.o = "flatten" -> 64 * w[q.x[1]]      \* the voxels of depth 2
                  [] OTHER -> w[q.x[1]]
       IN WidthOf(p, i + 1, TLCEval((q.y :> c) @@ w))
\* << path, shape >> of every learnable parameter
ParamsOf(p, ci, cc) ==
  LET w == TLCEval(WidthOf(p, 1, ("in" :> ci) @@ ("code" :> cc)))
      one(q) == LET a == w[q.x[1]] IN
        CASE q.o = "conv" -> << << q.p \o ".weights", << KDim(q.k), a, q.c >> >> >>
          [] q.o = "deconv" -> << << q.p \o ".weights", << KDim(q.k), q.c, a >> >> >>
          [] q.o = "lin" -> << << q.p \o ".weight", << q.c, a >> >> >> \o (IF q.b THEN << << q.p \o ".bias", << q.c >> >> >> ELSE <<>>)
          [] q.o = "bn" -> << << q.p \o ".weight", << a >> >>, << q.p \o ".bias", << a >> >> >>
          [] OTHER -> <<>>
  IN CatS(LAMBDA i: one(p[i]), 1, Len(p))
DecOuts(D, F) == [i \in 1..(D - F + 1) |-> "logit" \o S(F + i - 1)] \o <<"signal">>
=============================================================================
