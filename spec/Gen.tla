-------------------------------- MODULE Gen --------------------------------
(* Generation of the scenarios replayed on the real code: networks with their weights, input domains, sample  *)
(* points inside the domains, and the conversions to run.  Everything is drawn from the seed with Mix, so a    *)
(* scenario is a function of (family, seed, index).                                                           *)
EXTENDS NetSem

(* ------------------------------------------------------------- networks --------------------------------- *)
InN == [op |-> "in", in |-> <<>>]
Mat(s, ni, no, m) == [i \in 1..ni |-> [o \in 1..no |-> RndIn(Seed(s, 31 * i), o, -m, m)]]
Vec(s, n, m) == [o \in 1..n |-> RndIn(Seed(s, 977), o, -m, m)]
DenseB(src, ni, no, act, bias, wden, s) ==
  [op |-> "dense", in |-> <<src>>, units |-> no, W |-> Mat(s, ni, no, 2 * wden), b |-> Vec(s + 1, no, 3 * wden),
   use_bias |-> bias, act |-> act, wden |-> wden]
DenseN(src, ni, no, act, s) == DenseB(src, ni, no, act, (Mix(s, 77) % 6) # 0, 1, s)
ActN(src, f) == [op |-> "act", in |-> <<src>>, fn |-> f]
ReshapeN(src, sh) == [op |-> "reshape", in |-> <<src>>, shape |-> sh]
PermuteN(src, d) == [op |-> "permute", in |-> <<src>>, dims |-> d]
FlattenN(src, df) == [op |-> "flatten", in |-> <<src>>, df |-> df]
DropN(src) == [op |-> "dropout", in |-> <<src>>]
MergeN(op, srcs) == [op |-> op, in |-> srcs, axis |-> -1]
ConvN(src, ci, co, k, st, pad, dil, df, act, bias, s) ==
  [op |-> "conv", in |-> <<src>>, filters |-> co, kernel |-> k, strides |-> st, padding |-> pad, dilation |-> dil,
   df |-> df, act |-> act, use_bias |-> bias, wden |-> 1,
   W |-> [a \in 1..k[1] |-> [b \in 1..k[2] |-> Mat(Seed(s, 5 * a + b), ci, co, 2)]], b |-> Vec(s + 3, co, 3)]
PoolN(src, k, st, pad, df) == [op |-> "maxpool", in |-> <<src>>, pool |-> k, strides |-> st, padding |-> pad, df |-> df]
BnN(src, c, axis, sc, ce, s) ==
  LET v4 == [i \in 1..c |-> RndOf(s, i, IF sc THEN <<1, 4, 16>> ELSE <<1, 4>>)] IN
  [op |-> "bn", in |-> <<src>>, axis |-> axis, scale |-> sc, center |-> ce, var4 |-> v4, wden |-> 1,
   gamma |-> [i \in 1..c |-> IF sc THEN 2 * RndIn(s, 40 + i, -1, 1) ELSE 1],
   beta |-> [i \in 1..c |-> IF ce THEN RndIn(s, 80 + i, -2, 2) ELSE 0],
   mean |-> [i \in 1..c |-> RndIn(s, 120 + i, -2, 2)]]
ModelN(src, net, nout) == [op |-> "model", in |-> <<src>>, net |-> net, nout |-> nout]
Net(nin, nodes) == [nin |-> nin, nodes |-> nodes, outs |-> <<Len(nodes) - 1>>]

(* -------------------------------------------------- domains and sample points ---------------------------- *)
XDEN == 16
(* coordinates of corners are multiples of 1/4, that is of 4 over the denominator 16 *)
BoxCoord(s, i, style) ==
  LET c == 4 * RndIn(s, i, -8, 8)
      r == 4 * RndIn(s, 50 + i, 1, 6)
      w == 4 * RndIn(s, 90 + i, 20, 60)
  IN CASE style = 1 -> <<c, c>>                                   \* a point
       [] style = 2 -> IF i = 1 + (Mix(s, 3) % 2) THEN <<c, c>> ELSE <<c - r, c + r>>
       [] style = 3 -> <<0, 2 * r>>                                \* touches 0 from above
       [] style = 4 -> <<-2 * r, 0>>
       [] style = 5 -> <<c - w, c + w>>                            \* large
       [] style = 6 -> <<c, c + 4>>                                \* small
       [] style = 7 -> <<-r, r>>                                   \* symmetric around 0
       [] OTHER -> <<c - r, c + r>>
MkBox(s, n, style) ==
  LET cs == [i \in 1..n |-> BoxCoord(s, i, style)] IN
  [lo |-> [i \in 1..n |-> cs[i][1]], hi |-> [i \in 1..n |-> cs[i][2]]]

GridPts(box, levels) ==     \* levels + 1 positions per side; levels divides 4
  LET n == Len(box.lo)
      m == levels + 1
  IN [q \in 1..(m ^ n) |->
        [i \in 1..n |-> box.lo[i] + ((box.hi[i] - box.lo[i]) * (((q - 1) \div (m ^ (i - 1))) % m)) \div levels]]
RndPts(s, box, num) ==
  [q \in 1..num |-> [i \in 1..Len(box.lo) |->
      box.lo[i] + (IF box.hi[i] = box.lo[i] THEN 0 ELSE Mix(Seed(s, q), i) % (box.hi[i] - box.lo[i] + 1))]]
BoxPts(s, box) ==
  LET n == Len(box.lo) IN
  IF box.lo = box.hi THEN <<box.lo>>
  ELSE IF n = 1 THEN GridPts(box, 4) \o RndPts(s, box, 8)
  ELSE IF n = 2 THEN GridPts(box, 4) \o RndPts(s, box, 4)
  ELSE GridPts(box, 2) \o RndPts(s, box, 6)

(* balls: centre and radius over XDEN; the sample points are those of the enclosing box lying in the ball, *)
(* the extreme points on the axes and, for p = 2, the points on the 3-4-5 directions                       *)
InBall(x, c, eps, p) ==
  LET d == [i \in 1..Len(x) |-> Abs(x[i] - c[i])] IN
  CASE p = "1" -> SumSeq(d) <= eps
    [] p = "2" -> Dot(d, d) <= eps * eps
    [] OTHER -> MaxSeq(d) <= eps
BallHull(c, eps) == [lo |-> [i \in 1..Len(c) |-> c[i] - eps], hi |-> [i \in 1..Len(c) |-> c[i] + eps]]
AxisPts(c, eps) == [q \in 1..(2 * Len(c)) |->
                      [i \in 1..Len(c) |-> IF i = (q + 1) \div 2 THEN c[i] + (IF q % 2 = 0 THEN eps ELSE -eps) ELSE c[i]]]
PythPts(c, eps) ==
  IF Len(c) < 2 \/ eps % 5 # 0 THEN <<>>
  ELSE LET a == (3 * eps) \div 5 b == (4 * eps) \div 5
           v(x, y) == [i \in 1..Len(c) |-> IF i = 1 THEN c[i] + x ELSE IF i = 2 THEN c[i] + y ELSE c[i]]
       IN <<v(a, b), v(a, -b), v(-a, b), v(-a, -b), v(b, a), v(b, -a), v(-b, a), v(-b, -a)>>
BallPts(s, c, eps, p) ==
  IF eps = 0 THEN <<c>>
  ELSE SelectSeq(AxisPts(c, eps) \o PythPts(c, eps) \o GridPts(BallHull(c, eps), 2) \o RndPts(s, BallHull(c, eps), 16),
                 LAMBDA x : InBall(x, c, eps, p))

(* ------------------------------------------------------------- conversions ------------------------------ *)
FwdMethods == <<"forward-ibp", "forward-affine", "forward-hybrid">>
CrownMethods == <<"crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid">>
AllMethods == FwdMethods \o CrownMethods
SlopesAll == <<"volume-slope", "same-slope", "zero-lb", "one-lb", "adaptative-slope">>
Forms == <<"default", "TT", "TF", "FT">>
Run(m, slope, form) == [m |-> m, slope |-> slope, form |-> form]
(* every method, in its default form and with both forms, the slope rotating with the index *)
RunsOf(meths, slopes, i) ==
  FlattenSeq([q \in 1..Len(meths) |->
     <<Run(meths[q], slopes[1 + ((i + q) % Len(slopes))], "TT"),
       Run(meths[q], slopes[1 + ((i + 2 * q + 1) % Len(slopes))], <<"default", "TF", "FT">>[1 + (Mix(i, q) % 3)])>>])

Case(id, fam, net, boxes, s, runs, be) ==
  [id |-> id, fam |-> fam, net |-> net, xden |-> XDEN, dom |-> "box", boxes |-> boxes,
   pts |-> [b \in 1..Len(boxes) |-> BoxPts(Seed(s, b), boxes[b])], runs |-> runs, be |-> be]
BallCase(id, fam, net, centers, eps, p, s, runs, be) ==
  [id |-> id, fam |-> fam, net |-> net, xden |-> XDEN, dom |-> "ball", p |-> p, eps |-> eps,
   boxes |-> [b \in 1..Len(centers) |-> BallHull(centers[b], eps)], centers |-> centers,
   pts |-> [b \in 1..Len(centers) |-> BallPts(Seed(s, b), centers[b], eps, p)], runs |-> runs, be |-> be]

Both == <<"torch", "tensorflow">>
TorchOnly == <<"torch">>
Boxes(s, n, styles) == [b \in 1..Len(styles) |-> MkBox(Seed(s, 11 * b), n, styles[b])]
AllStyles == <<0, 1, 2, 3, 4, 7, 6, 5, 0>>
SomeStyles(s) == <<0, RndOf(s, 1, <<1, 2, 6>>), RndOf(s, 2, <<3, 4, 7>>), 0>>

(* ------------------------------------------------- family: multilayer perceptrons ------------------------- *)
RECURSIVE MlpNodes(_, _, _, _, _)
MlpNodes(nodes, width, depth, s, act) ==
  IF depth = 0 THEN nodes
  ELSE LET w2 == RndIn(s, depth, 1, 4)
           src == Len(nodes) - 1
           sep == Mix(s, 10 + depth) % 3 = 0
           d == DenseB(src, width, w2, IF sep THEN "none" ELSE act, Mix(s, 20 + depth) % 4 # 0, RndOf(s, 30 + depth, <<1, 1, 2>>), Seed(s, depth))
           n1 == Append(nodes, d)
       IN MlpNodes(IF sep THEN Append(n1, ActN(src + 1, act)) ELSE n1, w2, depth - 1, s, act)
LastUnits(nodes, nin) == LET sh == Shapes(Net(nin, nodes)) IN sh[Len(sh)][1]
Mlp(s, nin, depth, act) ==
  LET h == MlpNodes(<<InN>>, nin, depth, s, act)
      w == LastUnits(h, nin)
      no == RndIn(s, 400, 1, 3)
      last == RndOf(s, 401, <<"none", "none", act, "linear", "softmax">>)
  IN Net(nin, Append(h, DenseN(Len(h) - 1, w, IF last = "softmax" THEN Mx(no, 2) ELSE no, last, Seed(s, 500))))
(* a classifier, possibly with a final softmax (the bounds are then those of the logits) *)
ClassNet(s, nin, depth, nout, act) ==
  LET h == MlpNodes(<<InN>>, nin, depth, s, act)
      w == LastUnits(h, nin)
  IN Net(nin, Append(h, DenseN(Len(h) - 1, w, nout, IF Mix(s, 402) % 6 = 0 THEN "softmax" ELSE "none", Seed(s, 500))))
MlpCases(seed, num) ==
  [i \in 1..num |->
     LET s == Seed(seed, 100 + i)
         nin == 1 + (i % 3)
     IN Case("mlp" \o ToString(i), "mlp", Mlp(s, nin, 1 + ((i \div 3) % 3), "relu"), Boxes(s, nin, IF i % 2 = 0 THEN AllStyles ELSE SomeStyles(s)), s,
             RunsOf(AllMethods, SlopesAll, i), Both)]

(* ------------------------------------------- family: networks which are affine on their domain ------------ *)
(* relus are kept stable by large biases, computed from the interval of the pre-activation *)
StableBias(plan0, ish, rows, boxes, s) ==
  [n \in 1..Len(rows) |->
     LET ext == MaxSeq([b \in 1..Len(boxes) |->
                  Mx(Abs(SparseLo(rows[n], boxes[b])), Abs(SparseHi(rows[n], boxes[b])))])
         m == CeilDiv(ext, plan0) + 1
     IN IF Mix(s, 600 + n) % 3 = 0 THEN -m ELSE m]
AffineNet(s, nin, boxes) ==
  LET w1 == RndIn(s, 1, 1, 4)
      d0 == DenseB(0, nin, w1, "relu", TRUE, 1, Seed(s, 2))
      rows == DenseRows(d0, <<nin>>)
      kind == RndOf(s, 7, <<"linear", "stable", "stable", "sep", "bn", "deep">>)
      stable == [d0 EXCEPT !.b = StableBias(XDEN, <<nin>>, rows, boxes, s)]
      w2 == RndIn(s, 8, 1, 3)
  IN CASE kind = "linear" -> Net(nin, <<InN, DenseN(0, nin, w1, "linear", Seed(s, 2)), DenseN(1, w1, w2, "none", Seed(s, 3))>>)
       [] kind = "stable" -> Net(nin, <<InN, stable, DenseN(1, w1, w2, "none", Seed(s, 3))>>)
       [] kind = "sep" -> Net(nin, <<InN, [stable EXCEPT !.act = "none"], ActN(1, "relu"), DropN(2), DenseN(3, w1, w2, "none", Seed(s, 3))>>)
       [] kind = "bn" -> Net(nin, <<InN, stable, BnN(1, w1, -1, TRUE, TRUE, Seed(s, 5)), DenseN(2, w1, w2, "none", Seed(s, 3))>>)
       [] kind = "deep" -> Net(nin, <<InN, stable, DenseN(1, w1, 2, "none", Seed(s, 4)), DenseN(2, 2, w2, "linear", Seed(s, 3)),
                                      ActN(3, "linear")>>)
AffStyles == <<0, 1, 3, 4, 7, 2>>
AffineCases(seed, num) ==
  [i \in 1..num |->
     LET s == Seed(seed, 200 + i)
         nin == 1 + (i % 3)
         bx == Boxes(s, nin, AffStyles)
     IN Case("aff" \o ToString(i), "affine", AffineNet(s, nin, bx), bx, s, RunsOf(AllMethods, SlopesAll, i), Both)]
(* the same with convolutions, permutations and flattening: affine layers of every geometry *)
AffineGeoCases(seed, num) ==
  [i \in 1..num |->
     LET s == Seed(seed, 250 + i)
         bx == Boxes(s, 2, <<0, 1, 7>>)
         ish == RndOf(s, 1, <<<<3, 4, 2>>, <<2, 3, 4>>, <<4, 3, 1>>>>)
         n == ProdSeq(ish)
         k == RndOf(s, 2, <<<<2, 2>>, <<2, 3>>, <<1, 2>>, <<3, 1>>>>)
         d1 == DenseN(0, 2, n, "none", Seed(s, 4))
         ker == IF k[1] > ish[1] \/ k[2] > ish[2] THEN <<1, 2>> ELSE k
         cv == ConvN(2, ish[3], 2, ker, RndOf(s, 3, <<<<1, 1>>, <<1, 1>>, <<2, 2>>>>), RndOf(s, 5, <<"valid", "valid", "same">>), <<1, 1>>, "channels_last", "none", TRUE, Seed(s, 6))
         pm == PermuteN(2, RndOf(s, 8, <<<<2, 1, 3>>, <<3, 1, 2>>, <<2, 3, 1>>, <<1, 3, 2>>>>))
         mid == IF i % 3 = 0 THEN pm ELSE cv
         nodes == <<InN, d1, ReshapeN(1, ish), mid, FlattenN(3, IF i % 2 = 0 THEN "channels_last" ELSE "channels_first")>>
         m == LastUnits(nodes, 2)
     IN Case("affgeo" \o ToString(i), "affine", Net(2, Append(nodes, DenseN(4, m, 2, "none", Seed(s, 9)))), bx, s,
             RunsOf(AllMethods, SlopesAll, i), Both)]

(* ----------------------------------------------------------------- family: activations -------------------- *)
(* A scalar input x in [l, u] goes through a dense layer with unit weights and shifts, then the activation:    *)
(* the pre-activation of unit j ranges over [a_j l + c_j, a_j u + c_j].                                        *)
SActs == <<"relu", "sigmoid", "tanh", "softplus", "softsign", "exponential", "linear">>
ActSlopes(a) == IF a = "relu" THEN SlopesAll ELSE IF a = "softplus" THEN SubSeq(SlopesAll, 1, 4) ELSE SlopesAll
ActMeths(a) == IF a = "exponential" THEN FwdMethods ELSE AllMethods
Itv1(l, h) == [lo |-> <<l>>, hi |-> <<h>>]
ActBoxes(s) ==       \* in sixteenths
  <<Itv1(0, 0), Itv1(-4, 4), Itv1(0, 16), Itv1(-16, 0), Itv1(-32, 8), Itv1(-8, 32), Itv1(16, 48), Itv1(-48, -16),
    Itv1(-4, 0), Itv1(0, 4), Itv1(20, 20), Itv1(-12, -12), Itv1(-64, 64), Itv1(-16, 80), Itv1(-80, 12),
    Itv1(-4 * RndIn(s, 1, 1, 20), 4 * RndIn(s, 2, 1, 20)), Itv1(-4 * RndIn(s, 3, 10, 20), -4 * RndIn(s, 4, 0, 9)),
    Itv1(4 * RndIn(s, 5, 0, 9), 4 * RndIn(s, 6, 10, 20)), Itv1(-4 * RndIn(s, 7, 1, 4), 4 * RndIn(s, 8, 10, 20)),
    Itv1(-1600, 1600), Itv1(-1600, 8), Itv1(-8, 1600), Itv1(1440, 1600), Itv1(-1600, -1440), Itv1(-320, 320)>>       \* very wide, saturated
ActNet(a, sep, s) ==
  LET d == [op |-> "dense", in |-> <<0>>, units |-> 4, W |-> <<<<1, -1, 2, 1>>>>, b |-> <<0, 0, RndIn(s, 9, -2, 2), RndIn(s, 10, -3, 3)>>,
            use_bias |-> TRUE, act |-> IF sep THEN "none" ELSE a, wden |-> 1]
  IN IF sep THEN Net(1, <<InN, d, ActN(1, a)>>) ELSE Net(1, <<InN, d>>)
ActNetDeep(a, s) ==
  LET d == [op |-> "dense", in |-> <<0>>, units |-> 3, W |-> <<<<1, -1, 1>>>>, b |-> <<0, RndIn(s, 9, -2, 2), RndIn(s, 10, -2, 2)>>,
            use_bias |-> TRUE, act |-> a, wden |-> 1]
  IN Net(1, <<InN, d, DenseN(1, 3, 2, "none", Seed(s, 12))>>)
ActCase(seed, a, k, i) ==
  LET s == Seed(seed, 300 + 10 * i + k)
      sl == ActSlopes(a)
      bx == ActBoxes(s)
      bxs == IF a = "exponential" THEN SelectSeq(bx, LAMBDA b : b.hi[1] - b.lo[1] <= 64) ELSE bx
      all == FlattenSeq([m \in 1..Len(ActMeths(a)) |-> <<
                Run(ActMeths(a)[m], sl[1 + ((m + k) % Len(sl))], "TT"),
                Run(ActMeths(a)[m], sl[1 + ((m + k + 2) % Len(sl))], IF ActMeths(a)[m] \in {"forward-affine", "crown-forward-affine"} THEN "FT" ELSE "default")>>])
  IN Case("act-" \o a \o ToString(k), "act-" \o a,
          CASE k % 3 = 0 -> ActNet(a, FALSE, s) [] k % 3 = 1 -> ActNet(a, TRUE, s) [] OTHER -> ActNetDeep(a, s),
          bxs, s, all, Both)
ActCases(seed, num) ==
  FlattenSeq([i \in 1..Len(SActs) |-> [k \in 1..num |-> ActCase(seed, SActs[i], k, i)]])

(* ----------------------------------------------------------------- family: geometry ----------------------- *)
GeoNet(mid, ish, fdf, dense, s) ==
  LET nodes == <<InN, DenseN(0, 2, ProdSeq(ish), "relu", Seed(s, 1)), ReshapeN(1, ish)>> \o mid \o
               <<FlattenN(1 + Len(mid) + 1, fdf)>>
      m == LastUnits(nodes, 2)
  IN Net(2, IF dense THEN Append(nodes, DenseN(Len(nodes) - 1, m, 2, "none", Seed(s, 2))) ELSE nodes)
GeoStyles(s) == <<0, RndOf(s, 1, <<1, 2, 6>>), RndOf(s, 2, <<3, 4, 7>>)>>
GeoRuns(meths, i) == [q \in 1..Len(meths) |-> Run(meths[q], SlopesAll[1 + ((i + q) % 5)], "TT")]
GeoCase(id, mid, ish, fdf, dense, s, meths, i, be) ==
  Case(id, "geo", GeoNet(mid, ish, fdf, dense, s), Boxes(s, 2, GeoStyles(s)), s, GeoRuns(meths, i), be)
ConvConfigs ==   \* every data format x padding x stride x kernel x dilation that the layers accept
  LET cfgs == [n \in 1..(2 * 2 * 3 * 5 * 2) |->
      LET a == n - 1 IN
      [df |-> IF a % 2 = 0 THEN "channels_last" ELSE "channels_first",
       pad |-> IF (a \div 2) % 2 = 0 THEN "valid" ELSE "same",
       st |-> <<<<1, 1>>, <<2, 2>>, <<1, 2>>>>[1 + ((a \div 4) % 3)],
       k |-> <<<<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 3>>, <<3, 3>>>>[1 + ((a \div 12) % 5)],
       dil |-> IF (a \div 60) % 2 = 0 THEN <<1, 1>> ELSE <<2, 2>>]]
  IN SelectSeq(cfgs, LAMBDA c : /\ (c.dil # <<1, 1>> => c.st = <<1, 1>> /\ c.pad = "same")
                                \* Keras' torch backend itself mis-sizes strided "same" convolutions with a 3x2 kernel
                                /\ ~(c.st # <<1, 1>> /\ c.pad = "same" /\ c.k = <<3, 2>>))
ConvCases(seed, num) ==     \* num = 0: all of them
  LET cs == ConvConfigs
      pick == IF num = 0 THEN [i \in 1..Len(cs) |-> i] ELSE [i \in 1..num |-> 1 + ((i * 37 + seed * 5) % Len(cs))]
  IN [j \in 1..Len(pick) |->
        LET c == cs[pick[j]]
            s == Seed(seed, 1000 + pick[j])
            ish == IF c.df = "channels_last" THEN <<3, 4, 2>> ELSE <<2, 3, 4>>
            act == RndOf(s, 3, <<"relu", "none", "relu">>)
            cv == ConvN(2, 2, RndOf(s, 4, <<2, 1, 3>>), c.k, c.st, c.pad, c.dil, c.df, act, Mix(s, 5) % 3 # 0, Seed(s, 6))
        IN GeoCase("conv" \o ToString(pick[j]), <<cv>>, ish, c.df, j % 3 = 0, s, AllMethods, j,
                   IF c.df = "channels_first" THEN TorchOnly ELSE Both)]
PoolConfigs ==
  [n \in 1..(2 * 2 * 4 * 2) |->
      LET a == n - 1 IN
      [df |-> IF a % 2 = 0 THEN "channels_last" ELSE "channels_first",
       pad |-> IF (a \div 2) % 2 = 0 THEN "valid" ELSE "same",
       st |-> <<<<1, 1>>, <<2, 2>>, <<1, 2>>, <<2, 1>>>>[1 + ((a \div 4) % 4)],
       k |-> <<<<2, 2>>, <<2, 3>>>>[1 + ((a \div 16) % 2)]]]
PoolCases(seed, num) ==
  LET cs == PoolConfigs
      pick == IF num = 0 THEN [i \in 1..Len(cs) |-> i] ELSE [i \in 1..num |-> 1 + ((i * 7 + seed * 5) % Len(cs))]
  IN [j \in 1..Len(pick) |->
        LET c == cs[pick[j]]
            s == Seed(seed, 1200 + pick[j])
            ish == IF c.df = "channels_last" THEN <<3, 4, 2>> ELSE <<2, 3, 4>>
        IN GeoCase("pool" \o ToString(pick[j]), <<PoolN(2, c.k, c.st, c.pad, c.df)>>, ish, c.df, FALSE, s, FwdMethods, j,
                   IF c.df = "channels_first" THEN TorchOnly ELSE Both)]
Perms == <<<<2, 1, 3>>, <<3, 1, 2>>, <<2, 3, 1>>, <<1, 3, 2>>, <<3, 2, 1>>, <<1, 2, 3>>>>
MiscGeo(seed) ==
  [j \in 1..6 |-> LET s == Seed(seed, 1300 + j) IN
      GeoCase("perm" \o ToString(j), <<PermuteN(2, Perms[j])>>, <<2, 3, 4>>, "channels_last", j % 2 = 0, s, AllMethods, j, Both)]
  \o [j \in 1..4 |-> LET s == Seed(seed, 1310 + j)
                         ax == <<1, 2, 3, -1>>[j] c == <<2, 3, 4, 4>>[j] IN
      GeoCase("bn4d" \o ToString(j), <<BnN(2, c, ax, j # 2, j # 3, s)>>, <<2, 3, 4>>, "channels_last", j % 2 = 0, s,
              AllMethods, j, Both)]
  \o [j \in 1..4 |-> LET s == Seed(seed, 1320 + j) IN
      Case("bn2d" \o ToString(j), "geo",
           IF j % 2 = 0 THEN Net(2, <<InN, DenseN(0, 2, 3, "relu", s), BnN(1, 3, RndOf(s, 5, <<-1, 1>>), j # 2, j # 3, s), DenseN(2, 3, 2, "none", s + 1)>>)
           ELSE Net(2, <<InN, BnN(0, 2, -1, j # 1, TRUE, s), DenseN(1, 2, 2, "relu", s + 1)>>),
           Boxes(s, 2, GeoStyles(s)), s, RunsOf(AllMethods, SlopesAll, j), Both)]
  \o [j \in 1..4 |-> LET s == Seed(seed, 1330 + j) IN
      GeoCase("flat" \o ToString(j), IF j > 2 THEN <<ActN(2, "relu")>> ELSE <<DropN(2)>>, <<2, 3, 4>>,
              IF j % 2 = 1 THEN "channels_first" ELSE "channels_last", j # 4, s, AllMethods, j, Both)]
  \o [j \in 1..5 |-> LET s == Seed(seed, 1370 + j) a == <<"sigmoid", "tanh", "softplus", "softsign", "relu">>[j] IN      \* activations of feature maps
      [GeoCase("actmap" \o ToString(j), IF j % 2 = 0 THEN <<ActN(2, a)>> ELSE <<ConvN(2, 2, 2, <<2, 2>>, <<1, 1>>, "valid", <<1, 1>>, "channels_last", a, TRUE, s)>>,
              <<2, 3, 2>>, "channels_last", j # 4, s, AllMethods, j, Both)
       EXCEPT !.runs = [q \in 1..7 |-> Run(AllMethods[q], ActSlopes(a)[1 + ((q + j) % Len(ActSlopes(a)))], "TT")]]]
  \o [j \in 1..2 |-> LET s == Seed(seed, 1340 + j) IN
      Case("resh" \o ToString(j), "geo",
           Net(2, <<InN, DenseN(0, 2, 6, "relu", s), ReshapeN(1, <<2, 3>>), PermuteN(2, <<2, 1>>), ReshapeN(3, <<6>>), DenseN(4, 6, 2, "none", s + 1)>>),
           Boxes(s, 2, GeoStyles(s)), s, RunsOf(AllMethods, SlopesAll, j), Both)]
  \o [j \in 1..2 |-> LET s == Seed(seed, 1350 + j) IN
      Case("dense3d" \o ToString(j), "geo",
           Net(2, <<InN, DenseN(0, 2, 6, "relu", s), ReshapeN(1, <<2, 3>>), DenseN(2, 3, 2, IF j = 1 THEN "none" ELSE "relu", s + 1), FlattenN(3, "channels_last")>>),
           Boxes(s, 2, GeoStyles(s)), s, RunsOf(AllMethods, SlopesAll, j), Both)]
  \o [j \in 1..2 |-> LET s == Seed(seed, 1360 + j) IN      \* two convolutions in a row
      GeoCase("conv2x" \o ToString(j), <<ConvN(2, 2, 2, <<2, 2>>, <<1, 1>>, "valid", <<1, 1>>, "channels_last", "relu", TRUE, s),
                                         ConvN(3, 2, 1, <<1, 2>>, <<1, 1>>, "same", <<1, 1>>, "channels_last", "none", j = 1, s + 1)>>,
              <<3, 3, 2>>, "channels_last", TRUE, s, AllMethods, j, Both)]

(* ------------------------------------------------------------------ family: merges and graphs ------------- *)
Bin == <<"add", "avg", "sub", "max", "min", "mul", "concat">>
Tri == <<"add", "avg", "max", "min", "mul", "concat">>
MergeCase(id, net, s, i) == Case(id, "merge", net, Boxes(s, net.nin, <<0, RndOf(s, 1, <<1, 2, 6>>), RndOf(s, 2, <<3, 4, 7>>), 0, 0>>), s,
                                 RunsOf(FwdMethods, SlopesAll, i), Both)
MergeCases(seed) ==
  [i \in 1..Len(Bin) |-> LET s == Seed(seed, 2000 + i) IN
      MergeCase("m2-" \o Bin[i], Net(2, <<InN, DenseN(0, 2, 3, "relu", s), DenseN(0, 2, 3, "none", s + 1), MergeN(Bin[i], <<1, 2>>)>>), s, i)]
  \o [i \in 1..Len(Bin) |-> LET s == Seed(seed, 2020 + i) IN
      MergeCase("m2d-" \o Bin[i], Net(2, <<InN, DenseN(0, 2, 3, "relu", s), DenseN(0, 2, 3, "relu", s + 1), MergeN(Bin[i], <<2, 1>>),
                                          DenseN(3, IF Bin[i] = "concat" THEN 6 ELSE 3, 2, "none", s + 2)>>), s, i)]
  \o [i \in 1..Len(Tri) |-> LET s == Seed(seed, 2040 + i) IN
      MergeCase("m3-" \o Tri[i], Net(2, <<InN, DenseN(0, 2, 3, "relu", s), DenseN(0, 2, 3, "none", s + 1), DenseN(0, 2, 3, "relu", s + 2),
                                         MergeN(Tri[i], <<1, 2, 3>>)>>), s, i)]
  \o [i \in 1..Len(Tri) |-> LET s == Seed(seed, 2050 + i) op == Tri[i] d(k, a) == DenseN(0, 2, 2, a, s + k) IN
      MergeCase("m4-" \o op, Net(2, IF op = "mul" THEN <<InN, DenseN(0, 2, 1, "relu", s), DenseN(0, 2, 1, "none", s + 1), DenseN(0, 2, 1, "linear", s + 2), MergeN(op, <<3, 1, 2>>)>>
                                     ELSE <<InN, d(0, "relu"), d(1, "none"), d(2, "relu"), MergeN(op, <<3, 1, 0, 2>>)>>), s, i)]
  \o [i \in 1..3 |-> LET s == Seed(seed, 2060 + i) op == <<"max", "min", "sub">>[i] IN
      MergeCase("m1-" \o op, Net(1, <<InN, DenseN(0, 1, 2, "none", s), DenseN(0, 1, 2, "none", s + 1), MergeN(op, <<1, 2>>)>>), s, i)]
  \o [i \in 1..2 |-> LET s == Seed(seed, 2070 + i) IN
      MergeCase("dot" \o ToString(i), Net(2, <<InN, DenseN(0, 2, 3, "relu", s), DenseN(0, 2, 3, "none", s + 1),
                                              [op |-> "dot", in |-> <<1, 2>>, axes |-> 1]>>
                                              \o (IF i = 2 THEN <<DenseN(3, 1, 2, "relu", s + 5)>> ELSE <<>>)), s, i)]
  \o << LET s == Seed(seed, 2080) IN      \* concatenation of tensors with different widths, one reused
        MergeCase("cat-w", Net(2, <<InN, DenseN(0, 2, 1, "relu", s), DenseN(0, 2, 3, "none", s + 1), MergeN("concat", <<2, 1, 0>>), DenseN(3, 6, 2, "relu", s + 2)>>), s, 1),
        LET s == Seed(seed, 2081) IN      \* residual connections
        MergeCase("res", Net(2, <<InN, DenseN(0, 2, 2, "relu", s), DenseN(1, 2, 2, "relu", s + 1), MergeN("add", <<2, 0>>), DenseN(3, 2, 2, "none", s + 2), MergeN("sub", <<4, 1>>)>>), s, 2),
        LET s == Seed(seed, 2082) d == DenseN(0, 2, 2, "relu", s) IN      \* a layer applied twice
        MergeCase("shared", Net(2, <<InN, d, [d EXCEPT !["in"] = <<1>>] @@ [share |-> 1], MergeN("add", <<1, 2>>)>>), s, 3),
        LET s == Seed(seed, 2083) d == DenseN(0, 2, 2, "relu", s) IN      \* a layer applied to two different tensors
        MergeCase("siam", Net(2, <<InN, DenseN(0, 2, 2, "none", s + 1), DenseN(0, 2, 2, "relu", s + 2), [d EXCEPT !["in"] = <<1>>],
                                   [d EXCEPT !["in"] = <<2>>] @@ [share |-> 3], MergeN("sub", <<3, 4>>)>>), s, 4),
        LET s == Seed(seed, 2084) IN      \* merge of merges
        MergeCase("tree", Net(3, <<InN, DenseN(0, 3, 2, "relu", s), DenseN(0, 3, 2, "none", s + 1), MergeN("max", <<1, 2>>), MergeN("min", <<1, 2>>),
                                   MergeN("sub", <<3, 4>>), MergeN("avg", <<5, 1, 2>>)>>), s, 5),
        LET s == Seed(seed, 2085) IN      \* matrix product
        [MergeCase("dot4", Net(2, <<InN, DenseN(0, 2, 6, "relu", s), DenseN(0, 2, 6, "none", s + 1), ReshapeN(1, <<2, 3>>), ReshapeN(2, <<3, 2>>),
                                   [op |-> "dot", in |-> <<3, 4>>, axes |-> <<2, 1>>], FlattenN(5, "channels_last")>>), s, 6)
           EXCEPT !.runs = <<Run("forward-ibp", "volume-slope", "default"), Run("forward-ibp", "zero-lb", "TF")>>],
        LET s == Seed(seed, 2086) IN      \* merges of multi-dimensional tensors
        MergeCase("merge3d", Net(2, <<InN, DenseN(0, 2, 6, "relu", s), DenseN(0, 2, 6, "none", s + 1), ReshapeN(1, <<2, 3>>), ReshapeN(2, <<2, 3>>),
                                   MergeN("sub", <<3, 4>>), MergeN("concat", <<5, 3>>), FlattenN(6, "channels_last")>>), s, 7),
        LET s == Seed(seed, 2087) IN
        MergeCase("cat-ax1", Net(2, <<InN, DenseN(0, 2, 6, "relu", s), DenseN(0, 2, 3, "none", s + 1), ReshapeN(1, <<2, 3>>), ReshapeN(2, <<1, 3>>),
                                   [MergeN("concat", <<3, 4>>) EXCEPT !.axis = 1], FlattenN(5, "channels_last")>>), s, 8)
     >>
Sub1(s, nin) == Net(nin, <<InN, DenseN(0, nin, 3, "relu", s), DenseN(1, 3, 2, "none", s + 1)>>)
Sub2(s, nin) == Net(nin, <<InN, DenseN(0, nin, 2, "none", s), ActN(1, "relu")>>)
NestCases(seed) ==
  [i \in 1..4 |-> LET s == Seed(seed, 2100 + i)
                      sub == IF i % 2 = 0 THEN Sub1(s, 3) ELSE Sub2(s, 3) IN
      Case("nest" \o ToString(i), "nest",
           IF i < 3 THEN Net(2, <<InN, DenseN(0, 2, 3, "relu", s + 4), ModelN(1, sub, 2), DenseN(2, 2, 2, "none", s + 5)>>)
           ELSE IF i = 3 THEN Net(3, <<InN, ModelN(0, sub, 2), DenseN(1, 2, 2, "relu", s + 5)>>)
           ELSE Net(2, <<InN, ModelN(0, Net(2, <<InN, DenseN(0, 2, 3, "relu", s + 4), ModelN(1, sub, 2)>>), 2), DenseN(1, 2, 1, "none", s + 5)>>),
           Boxes(s, IF i = 3 THEN 3 ELSE 2, GeoStyles(s)), s, RunsOf(AllMethods, SlopesAll, i), Both)]

(* layers applied several times along a chain: every method *)
Again2(nd, src, k) == [nd EXCEPT !["in"] = <<src>>] @@ [share |-> k]
ChainCases(seed) ==
  [i \in 1..6 |-> LET s == Seed(seed, 2200 + i)
                      a == <<"relu", "relu", "sigmoid", "relu", "relu", "tanh">>[i]
                      d == DenseN(0, 2, 2, a, s)
                      nodes == CASE i \in {1, 3} -> <<InN, DenseN(0, 2, 3, "none", s), ActN(1, a), DenseN(2, 3, 3, "none", s + 1), Again2(ActN(1, a), 3, 2), DenseN(4, 3, 2, "none", s + 2)>>
                                 [] i = 2 -> <<InN, d, Again2(d, 1, 1), DenseN(2, 2, 2, "none", s + 1)>>
                                 [] i = 4 -> <<InN, [d EXCEPT !.act = "none"], ActN(1, "relu"), Again2([d EXCEPT !.act = "none"], 2, 1), Again2(ActN(1, "relu"), 3, 2),
                                               Again2([d EXCEPT !.act = "none"], 4, 1), Again2(ActN(1, "relu"), 5, 2), DenseN(6, 2, 1, "none", s + 3)>>
                                 [] i = 5 -> <<InN, DenseN(0, 2, 3, "relu", s), ModelN(1, Sub1(s + 5, 3), 2), ActN(2, "relu"), DenseN(3, 2, 2, "none", s + 6), Again2(ActN(1, "relu"), 4, 3), DenseN(5, 2, 2, "none", s + 7)>>
                                 [] OTHER -> <<InN, d, Again2(d, 1, 1), Again2(d, 2, 1)>>
                  IN Case("chain" \o ToString(i), "nest", Net(2, nodes), Boxes(s, 2, <<0, 3, RndOf(s, 1, <<1, 2, 6>>), RndOf(s, 2, <<3, 4, 7>>)>>), s, RunsOf(AllMethods, SlopesAll, i), Both)]
  \o [i \in 1..2 |-> LET s == Seed(seed, 2210 + i)
                         cv == ConvN(2, 2, 2, <<2, 2>>, <<1, 1>>, "same", <<1, 1>>, "channels_last", IF i = 1 THEN "relu" ELSE "none", TRUE, Seed(s, 6))
                         b == BnN(3, 2, -1, TRUE, TRUE, Seed(s, 7))
                     IN GeoCase("chainmap" \o ToString(i), IF i = 1 THEN <<cv, Again2(cv, 3, 3), ActN(4, "tanh"), Again2(ActN(4, "tanh"), 5, 5)>>
                                                           ELSE <<cv, b, ActN(4, "relu"), Again2(cv, 5, 3), Again2(b, 6, 4), Again2(ActN(4, "relu"), 7, 5)>>,
                                <<2, 3, 2>>, "channels_last", i = 2, s, AllMethods, i, Both)]

(* ---------------------------------------- family: graphs grown at random, one node after the other -------- *)
(* acc: nodes, widths of the nodes, number of products and of averages used so far *)
SameWidth(acc, w) == SelectSeq([k \in 1..Len(acc.w) |-> k - 1], LAMBDA k : acc.w[k + 1] = w)
GrowStep(acc, s, act, merges) ==
  LET n == Len(acc.w)
      recent(z) == IF Mix(s, z) % 3 = 0 THEN Mix(s, z + 1) % n ELSE Mx(0, n - 1 - (Mix(s, z + 1) % 2))
      a == recent(1)
      wa == acc.w[a + 1]
      same == SameWidth(acc, wa)
      b == RndOf(s, 3, same)
      b2 == RndOf(s, 4, same)
      k == Mix(s, 5) % (IF merges THEN 12 ELSE 6)
      add(nd, w) == [acc EXCEPT !.nodes = Append(@, nd), !.w = Append(@, w)]
      w2 == RndIn(s, 6, 1, 3)
      dense(f) == add([DenseN(a, wa, w2, f, Seed(s, 7)) EXCEPT !.W = Mat(Seed(s, 8), wa, w2, 1)], w2)
      olds == SelectSeq([q \in 1..(n - 1) |-> q], LAMBDA q : acc.nodes[q + 1].op = "dense" /\ ~("share" \in DOMAIN acc.nodes[q + 1]) /\ Len(acc.nodes[q + 1].W) = wa)
      srcs == IF Mix(s, 9) % 3 = 0 /\ b2 # a /\ b2 # b THEN <<a, b, b2>> ELSE <<b, a>>
      op == RndOf(s, 10, <<"add", "sub", "max", "min", "avg", "mul", "concat", "concat", "add">>)
  IN CASE k = 0 -> add(ActN(a, act), wa)
       [] k = 1 /\ olds # <<>> -> LET q == RndOf(s, 11, olds) IN add(Again2(acc.nodes[q + 1], a, q), acc.nodes[q + 1].units)
       [] k = 2 -> IF n % 2 = 0 THEN add(DropN(a), wa) ELSE add(BnN(a, wa, -1, TRUE, TRUE, Seed(s, 12)), wa)
       [] k = 3 /\ n = 2 -> add(ModelN(a, Sub2(Seed(s, 13), wa), 2), 2)
       [] k >= 6 /\ op = "concat" /\ wa + acc.w[recent(14) + 1] <= 5 -> LET q == recent(14) IN add(MergeN("concat", <<q, a>>), wa + acc.w[q + 1])
       [] k >= 6 /\ op = "mul" /\ acc.mul = 0 /\ n <= 4 /\ a # b -> [add(MergeN("mul", <<a, b>>), wa) EXCEPT !.mul = 1]
       [] k >= 6 /\ op = "avg" /\ acc.avg < 1 /\ a # b -> [add(MergeN("avg", srcs), wa) EXCEPT !.avg = @ + 1]
       [] k >= 6 /\ op = "sub" /\ a # b -> add(MergeN("sub", <<b, a>>), wa)
       [] k >= 6 /\ op \in {"add", "max", "min"} /\ a # b -> add(MergeN(op, srcs), wa)
       [] OTHER -> dense(RndOf(s, 15, <<act, act, "none">>))
Grown(s, nin, steps, act, merges) ==
  LET r == FoldLeft(LAMBDA acc, k : GrowStep(acc, Seed(s, 40 + k), act, merges),
                    [nodes |-> <<InN>>, w |-> <<nin>>, mul |-> 0, avg |-> 0], [k \in 1..steps |-> k])
      n == Len(r.w)
      lastdead == r.w[n]
  IN Net(nin, Append(r.nodes, DenseN(n - 1, r.w[n], RndIn(s, 30, 1, 2), "none", Seed(s, 31))))
GrowCases(seed, num) ==
  [i \in 1..num |->
     LET s == Seed(seed, 2300 + i)
         nin == 1 + (i % 3)
         merges == i % 4 # 0
         act == IF i % 7 = 6 THEN RndOf(s, 20, <<"sigmoid", "tanh", "softsign", "softplus">>) ELSE "relu"
     IN Case("grow" \o ToString(i), "merge", Grown(s, nin, RndIn(s, 21, 4, 8), act, merges),
             Boxes(s, nin, <<0, RndOf(s, 1, <<1, 2, 6>>), RndOf(s, 2, <<3, 4, 7>>), 6>>), s,
             RunsOf(IF merges THEN FwdMethods ELSE AllMethods, ActSlopes(act), i), Both)]

(* ---------------------------------------------- family: graphs of feature maps ---------------------------- *)
MapCases(seed, num) ==
  [i \in 1..num |->
     LET s == Seed(seed, 2400 + i)
         ish == RndOf(s, 1, <<<<3, 3, 2>>, <<2, 3, 2>>, <<3, 2, 1>>>>)
         cv(src, ci, co, z, act) == ConvN(src, ci, co, RndOf(s, z, <<<<2, 2>>, <<1, 2>>, <<3, 1>>, <<2, 1>>, <<1, 1>>>>), <<1, 1>>, "same", <<1, 1>>, "channels_last", act, Mix(s, z) % 3 # 0, Seed(s, z))
         c == ish[3]
         a == cv(2, c, 2, 11, RndOf(s, 3, <<"relu", "none">>))       \* node 3
         b == cv(2, c, 2, 12, RndOf(s, 4, <<"relu", "none">>))       \* node 4
         op == RndOf(s, 5, <<"add", "sub", "max", "min", "avg", "concat", "concat1">>)
         mg == IF op = "concat1" THEN [MergeN("concat", <<4, 3>>) EXCEPT !.axis = RndOf(s, 6, <<1, 2, 3>>)] ELSE MergeN(op, <<3, 4>>)
         post == CASE i % 4 = 0 -> PoolN(5, RndOf(s, 7, <<<<2, 2>>, <<2, 3>>>>), <<1, 1>>, "same", "channels_last")
                   [] i % 4 = 1 -> ActN(5, "relu")
                   [] i % 4 = 2 -> PermuteN(5, Perms[1 + (Mix(s, 8) % 6)])
                   [] OTHER -> BnN(5, NodeShape(mg, <<<<2>>, <<2>>, ish, NodeShape(a, <<<<2>>, <<2>>, ish>>), NodeShape(b, <<<<2>>, <<2>>, ish>>)>>)[3], -1, TRUE, TRUE, Seed(s, 9))
         nodes == <<InN, DenseN(0, 2, ProdSeq(ish), "relu", Seed(s, 1)), ReshapeN(1, ish), a, b, mg, post, FlattenN(6, RndOf(s, 10, <<"channels_last", "channels_first">>))>>
         m == LastUnits(nodes, 2)
     IN Case("map" \o ToString(i), "merge", Net(2, Append(nodes, DenseN(7, m, 2, "none", Seed(s, 13)))), Boxes(s, 2, GeoStyles(s)), s,
             GeoRuns(FwdMethods, i) \o <<Run(FwdMethods[1 + (i % 3)], "zero-lb", RndOf(s, 14, <<"TF", "FT", "default">>))>>, Both)]

(* ----------------------------------------------------- family: nested boxes, interval-based methods -------- *)
Shrunk(s, box) ==
  LET side(i) == LET a == Mix(s, i) % 3 b == Mix(s, 20 + i) % 3
                     w == (box.hi[i] - box.lo[i]) \div 4
                 IN IF w = 0 THEN <<box.lo[i], box.hi[i]>> ELSE <<box.lo[i] + a * (w \div 2), box.hi[i] - b * (w \div 2)>>
  IN [lo |-> [i \in 1..Len(box.lo) |-> side(i)[1]], hi |-> [i \in 1..Len(box.lo) |-> side(i)[2]]]
NestedBoxes(s, n, style) ==
  LET b1 == MkBox(s, n, style) b2 == Shrunk(s + 1, b1) b3 == Shrunk(s + 2, b2) b4 == Shrunk(s + 3, b1)
  IN <<b2, b1, b4, b3>>
IbpRuns(sl, i) == <<Run("forward-ibp", sl[1 + (i % Len(sl))], "default"), Run("forward-hybrid", sl[1 + (i % Len(sl))], "TF"),
                    Run("forward-hybrid", sl[1 + ((i + 1) % Len(sl))], "TT")>>
MonoCases(seed, num) ==
  [i \in 1..num |->
     LET s == Seed(seed, 700 + i)
         nin == 1 + (i % 3)
         act == IF i % 5 = 4 THEN RndOf(s, 9, <<"sigmoid", "tanh", "softplus", "softsign", "exponential">>) ELSE "relu"
         net == CASE i % 8 \in {3, 6} /\ act # "exponential" -> Grown(s, nin, RndIn(s, 21, 4, 7), act, TRUE)
                  [] i % 8 = 1 /\ nin = 2 -> GeoNet(IF Mix(s, 2) % 2 = 0 THEN <<ConvN(2, 2, 2, <<2, 2>>, <<1, 1>>, "valid", <<1, 1>>, "channels_last", act, TRUE, s)>>
                                                   ELSE <<PoolN(2, <<2, 2>>, <<1, 1>>, "same", "channels_last")>>, <<3, 3, 2>>, "channels_last", TRUE, s)
                  [] OTHER -> Mlp(s, nin, 1 + ((i \div 3) % 3), act)
     IN Case("mono" \o ToString(i), "mono", net,
             NestedBoxes(s, nin, RndOf(s, 1, IF act = "exponential" THEN <<6>> ELSE <<0, 0, 7, 3, 4, 5>>)), s, IbpRuns(ActSlopes(act), i), Both)]
(* ------------------------------------------------------------------- family: forms of the outputs ---------- *)
FormRuns(meths, i) ==
  FlattenSeq([q \in 1..Len(meths) |-> [f \in 1..4 |-> Run(meths[q], SlopesAll[1 + ((i + q + f) % 5)], Forms[f])]])
FormCases(seed, num) ==
  [i \in 1..num |->
     LET s == Seed(seed, 800 + i)
         nin == 1 + (i % 3)
         net == Mlp(s, nin, 1 + ((i \div 3) % 2), IF i % 4 = 3 THEN "sigmoid" ELSE "relu")
         cs == [b \in 1..3 |-> [q \in 1..nin |-> 4 * RndIn(Seed(s, b), q, -8, 8)]]
     IN IF i % 3 = 2 THEN BallCase("form" \o ToString(i), "form", net, cs, RndOf(s, 1, <<5, 10, 20>>), RndOf(s, 2, <<"1", "2", "inf">>), s, FormRuns(AllMethods, i), Both)
        ELSE Case("form" \o ToString(i), "form", net, Boxes(s, nin, SomeStyles(s)), s, FormRuns(AllMethods, i), Both)]
  \o << LET s == Seed(seed, 890) IN
        Case("form-conv", "form", GeoNet(<<ConvN(2, 2, 2, <<2, 2>>, <<1, 1>>, "valid", <<1, 1>>, "channels_last", "relu", TRUE, s)>>, <<3, 3, 2>>, "channels_last", TRUE, s),
             Boxes(s, 2, GeoStyles(s)), s, FormRuns(AllMethods, 1), Both),
        LET s == Seed(seed, 891) IN
        Case("form-merge", "form", Net(2, <<InN, DenseN(0, 2, 3, "relu", s), DenseN(0, 2, 3, "none", s + 1), MergeN("max", <<1, 2>>), MergeN("concat", <<3, 0>>)>>),
             Boxes(s, 2, GeoStyles(s)), s, FormRuns(FwdMethods, 2), Both) >>

(* -------------------------------- family: options of the conversion, on networks with layers which are not trainable ---- *)
KeepCases(seed, num) ==
  [i \in 1..num |->
     LET s == Seed(seed, 950 + i)
         net0 == CASE i % 4 = 0 -> Net(2, <<InN, DenseN(0, 2, 3, "relu", s), BnN(1, 3, -1, TRUE, TRUE, s), DenseN(2, 3, 2, "none", s + 1)>>)
                   [] i % 4 = 1 -> GeoNet(<<ConvN(2, 2, 2, <<2, 2>>, <<1, 1>>, "valid", <<1, 1>>, "channels_last", "relu", TRUE, s)>>, <<3, 3, 2>>, "channels_last", TRUE, s)
                   [] i % 4 = 2 -> Net(2, <<InN, DenseN(0, 2, 3, "relu", s + 4), ModelN(1, Sub1(s, 3), 2), DenseN(2, 2, 2, "softmax", s + 5)>>)
                   [] OTHER -> Mlp(s, 2, 2, RndOf(s, 1, <<"relu", "sigmoid", "relu">>))
         net == [net0 EXCEPT !.nodes = [k \in 1..Len(net0.nodes) |-> IF k > 1 /\ Mix(s, 30 + k) % 2 = 0 THEN net0.nodes[k] @@ [frozen |-> TRUE] ELSE net0.nodes[k]]]
         opt(q) == CASE (i + q) % 3 = 0 -> [finetune |-> TRUE] [] (i + q) % 3 = 1 -> [shared |-> FALSE] [] OTHER -> [finetune |-> TRUE, shared |-> FALSE]
         runs == [q \in 1..7 |-> Run(AllMethods[q], SlopesAll[1 + ((i + q) % 5)], Forms[1 + ((i + q) % 4)]) @@ [kw |-> opt(q)]]
     IN Case("keep" \o ToString(i), "keep", net, Boxes(s, 2, <<0, 3>>), s, runs, Both)]

(* ------------------------------------------------------------------ family: balls -------------------------- *)
BallNet(s, nin, i) == IF i % 3 = 0 THEN Mlp(s, nin, 2, "relu") ELSE IF i % 3 = 1 THEN Mlp(s, nin, 1, "relu")
                      ELSE Net(nin, <<InN, DenseN(0, nin, 3, "linear", s), DenseN(1, 3, 2, "none", s + 1)>>)
AsBoxToo(runs) == FlattenSeq([q \in 1..Len(runs) |-> <<runs[q], runs[q] @@ [as |-> "box"]>>])
BallCases(seed, num) ==
  FlattenSeq([i \in 1..num |->
    LET s == Seed(seed, 400 + i)
        nin == 1 + ((i + 1) % 3)
        eps == RndOf(s, 1, <<5, 10, 20, 40, 0>>)
        cs == [b \in 1..4 |-> [q \in 1..nin |-> 4 * RndIn(Seed(s, b), q, -8, 8)]]
    IN [q \in 1..3 |->
          BallCase("ball" \o ToString(i) \o "-" \o <<"1", "2", "inf">>[q], IF i % 3 = 2 THEN "affine" ELSE "ball", BallNet(s, nin, i), cs,
                   IF i = 5 THEN 0 ELSE eps, <<"1", "2", "inf">>[q], s,
                   IF q = 3 THEN AsBoxToo(RunsOf(AllMethods, SlopesAll, i + q)) ELSE RunsOf(AllMethods, SlopesAll, i + q), Both)]])
=============================================================================
