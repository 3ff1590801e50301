----------------------------- MODULE GenSession -----------------------------
(* Histories of calls on an original network and the networks converted from it: every history of a given      *)
(* length over an alphabet (Paths), and longer random walks of the same state machine.                         *)
EXTENDS Session, Gen, Json, IOUtils

seed == atoi(IOEnv.SEED)

(* ------------------------------------------------------------ networks and their weights ----------------- *)
RECURSIVE Reweight(_, _)
Reweight(net, s) ==
  [net EXCEPT !.nodes = [k \in 1..Len(net.nodes) |->
     LET nd == net.nodes[k] z == Seed(s, 17 * k) IN
     CASE nd.op = "dense" -> IF "share" \in DOMAIN nd THEN [nd EXCEPT !.W = Reweight(net, s).nodes[nd.share + 1].W, !.b = Reweight(net, s).nodes[nd.share + 1].b]
                             ELSE [nd EXCEPT !.W = Mat(z, Len(nd.W), nd.units, 2 * nd.wden), !.b = Vec(z + 1, nd.units, 3 * nd.wden)]
       [] nd.op = "conv" -> [nd EXCEPT !.W = [a \in 1..nd.kernel[1] |-> [b \in 1..nd.kernel[2] |-> Mat(Seed(z, 5 * a + b), Len(nd.W[1][1]), nd.filters, 2)]],
                                       !.b = Vec(z + 3, nd.filters, 3)]
       [] nd.op = "bn" -> [nd EXCEPT !.gamma = [i \in 1..Len(nd.gamma) |-> IF nd.scale THEN 2 * RndIn(z, 40 + i, -1, 1) ELSE nd.gamma[i]],
                                     !.beta = [i \in 1..Len(nd.beta) |-> IF nd.center THEN RndIn(z, 80 + i, -2, 2) ELSE nd.beta[i]],
                                     !.mean = [i \in 1..Len(nd.mean) |-> RndIn(z, 120 + i, -2, 2)],
                                     !.var4 = [i \in 1..Len(nd.var4) |-> RndOf(z, 160 + i, IF nd.scale THEN <<1, 4, 16>> ELSE <<1, 4>>)]]
       [] nd.op = "model" -> [nd EXCEPT !.net = Reweight(nd.net, z)]
       [] OTHER -> nd]]
NOutOf(net) == LET sh == Shapes(net) IN sh[Len(sh)][1]
SmallConv(s) == GeoNet(<<ConvN(2, 2, 2, <<2, 2>>, <<1, 1>>, IF Mix(s, 1) % 2 = 0 THEN "valid" ELSE "same", <<1, 1>>, "channels_last", "relu", TRUE, s)>>, <<3, 3, 2>>, "channels_last", TRUE, s)
(* networks whose outputs are feature maps *)
MapNet(s) == CASE Mix(s, 1) % 3 = 0 -> LET g == SmallConv(s) IN Net(g.nin, SubSeq(g.nodes, 1, Len(g.nodes) - 2))
               [] Mix(s, 1) % 3 = 1 -> Net(2, <<InN, DenseN(0, 2, 4, "relu", s), DenseN(1, 4, 6, "relu", s + 1), ReshapeN(2, <<2, 3>>)>>)
               [] OTHER -> Net(2, <<InN, DenseN(0, 2, 6, "relu", s), ReshapeN(1, <<3, 2>>), DenseN(2, 2, 2, RndOf(s, 3, <<"none", "relu">>), s + 1)>>)
BnNet(s) == Net(2, <<InN, DenseN(0, 2, 3, "relu", s), BnN(1, 3, -1, TRUE, TRUE, s), DenseN(2, 3, 2, "none", s + 1)>>)
ResNet(s) == Net(2, <<InN, DenseN(0, 2, 2, "relu", s), DenseN(1, 2, 2, "relu", s + 1), MergeN("add", <<2, 0>>), DenseN(3, 2, 3, "none", s + 2)>>)
TwinNet(s) == LET d == DenseN(0, 2, 2, "relu", s) IN
              Net(2, <<InN, d, [d EXCEPT !["in"] = <<1>>] @@ [share |-> 1], MergeN("sub", <<1, 2>>), DenseN(3, 2, 2, "none", s + 2)>>)
ChainNet(s) == LET d == DenseN(0, 2, 2, "none", s) IN
               Net(2, <<InN, d, ActN(1, "relu"), Again2(d, 2, 1), Again2(ActN(1, "relu"), 3, 2), DenseN(4, 2, 2, "none", s + 3)>>)
NestNet(s) == Net(2, <<InN, DenseN(0, 2, 3, "relu", s + 4), ModelN(1, Sub1(s, 3), 2), DenseN(2, 2, 2, "none", s + 5)>>)

(* ------------------------------------------------------------ cases -------------------------------------- *)
Conv(m, slope, form) == [m |-> m, slope |-> slope, form |-> form, finetune |-> FALSE, shared |-> TRUE, dom |-> Box, spec |-> FALSE]
OnBall(cv, p, eps) == [cv EXCEPT !.dom = Ball(p, eps)]
Tuned(cv) == [cv EXCEPT !.finetune = TRUE]
Copied(cv) == [cv EXCEPT !.shared = FALSE]
WithSpec(cv) == [cv EXCEPT !.spec = TRUE]
EqStyles(s) == <<0, RndOf(s, 1, <<0, 6>>), RndOf(s, 2, <<3, 4, 5>>), 0>>      \* without ties of slopes

(* the points of a ball case: candidates for every radius and norm; the specification selects those of a ball *)
BallCand(s, c, epss) ==
  <<c>> \o FlattenSeq([e \in 1..Len(epss) |->
     AxisPts(c, epss[e]) \o PythPts(c, epss[e]) \o GridPts(BallHull(c, epss[e]), 2) \o RndPts(Seed(s, e), BallHull(c, epss[e]), 8)])
BoxSession(id, fam, nets, boxes, s, convs, hist, be) ==
  [id |-> id, fam |-> fam, nets |-> nets, xden |-> XDEN, dom |-> "box", boxes |-> boxes, centers |-> <<>>, doms |-> <<Box>>,
   pts |-> [b \in 1..Len(boxes) |-> BoxPts(Seed(s, b), boxes[b])], convs |-> convs, hist |-> hist, be |-> be]
Radii == <<5, 10, 20>>
BallDoms == FlattenSeq([p \in 1..3 |-> [e \in 1..3 |-> Ball(<<"1", "2", "inf">>[p], Radii[e])]]) \o <<Ball("2", 0)>>
BallSession(id, fam, nets, centers, s, convs, hist, be) ==
  [id |-> id, fam |-> fam, nets |-> nets, xden |-> XDEN, dom |-> "ball", boxes |-> [b \in 1..Len(centers) |-> BallHull(centers[b], 20)],
   centers |-> centers, doms |-> BallDoms,
   pts |-> [b \in 1..Len(centers) |-> BallCand(Seed(s, b), centers[b], Radii)], convs |-> convs, hist |-> hist, be |-> be]
Centers(s, nin, n) == [b \in 1..n |-> [q \in 1..nin |-> 4 * RndIn(Seed(s, b), q, -8, 8)]]

(* ------------------------------------------------------------ steps -------------------------------------- *)
Call(i, batch) == [op |-> "call", i |-> i, batch |-> batch]
SetW(v) == [op |-> "setw", v |-> v]
Reconv(i) == [op |-> "conv", i |-> i]
SetDom(i, d) == [op |-> "setdom", i |-> i, dom |-> d]
Tune(i, a) == [op |-> "tune", i |-> i, a |-> a]
Reset(i) == [op |-> "reset", i |-> i]
RangeQ(i, fn, batch, bs, nsub) == [op |-> "range", i |-> i, fn |-> fn, batch |-> batch, bs |-> bs, nsub |-> nsub]
Adv(i, batch, lab, bs, nsub) == [op |-> "adv", i |-> i, batch |-> batch, lab |-> lab, bs |-> bs, nsub |-> nsub]
CheckAdv(i, batch, lab, bs) == [op |-> "check", i |-> i, batch |-> batch, lab |-> lab, bs |-> bs]
Refine(i, fn, batch, lab, n, bs, rnd, z) == [op |-> "refine", i |-> i, fn |-> fn, batch |-> batch, lab |-> lab, nsub |-> n, bs |-> bs, random |-> rnd, rs |-> z]
Noise(i, fn, batch, p, eps, bs) == [op |-> "noise", i |-> i, fn |-> fn, batch |-> batch, p |-> p, eps |-> eps, bs |-> bs]
AdvNoise(i, batch, lab, p, eps, bs) == [op |-> "advnoise", i |-> i, batch |-> batch, lab |-> lab, p |-> p, eps |-> eps, bs |-> bs]
CallC(i, batch, C) == [op |-> "callc", i |-> i, batch |-> batch, C |-> C]
(* the same query again, split into batches: the reply must be that of the step before *)
Again(s, bs) == [s EXCEPT !.bs = bs] @@ [same |-> 1]

BatchOf(s, n) ==   \* a sequence of inputs, with repetitions and in any order
  LET len == RndIn(s, 1, 1, 4) IN [q \in 1..len |-> 1 + (Mix(s, 10 + q) % n)]
Perm4(s) == RndOf(s, 5, <<<<1, 2, 3, 4>>, <<4, 3, 2, 1>>, <<2, 4, 1, 3>>, <<3, 3, 1, 2>>, <<1, 1, 4, 2>>>>)

(* labels: what is given to the library (form, val) and what it means (for each query, the labels counted from 0) *)
Labels(s, nb, no) ==
  LET f == RndOf(s, 1, IF no > 2 THEN <<"int", "array", "list", "column", "cols2", "mask", "mask">> ELSE <<"int", "array", "list", "column", "mask">>)
      v == [q \in 1..nb |-> Mix(s, 20 + q) % no]
      w == [q \in 1..nb |-> (v[q] + 1 + (Mix(s, 40 + q) % (no - 1))) % no]      \* another label
      many == no > 2 /\ Mix(s, 60) % 2 = 0
  IN CASE f = "int" -> [form |-> "int", val |-> v[1], is |-> [q \in 1..nb |-> <<v[1]>>]]
       [] f \in {"array", "list"} -> [form |-> f, val |-> v, is |-> [q \in 1..nb |-> <<v[q]>>]]
       [] f = "column" -> [form |-> "array", val |-> [q \in 1..nb |-> <<v[q]>>], is |-> [q \in 1..nb |-> <<v[q]>>]]
       [] f = "cols2" -> [form |-> "array", val |-> [q \in 1..nb |-> <<v[q], w[q]>>], is |-> [q \in 1..nb |-> <<v[q], w[q]>>]]
       [] f = "mask" -> LET on(q, j) == j = v[q] \/ (many /\ j = w[q])
                        IN [form |-> "array", val |-> [q \in 1..nb |-> [j \in 1..no |-> IF on(q, j - 1) THEN 1 ELSE 0]],
                            is |-> [q \in 1..nb |-> IF many THEN <<v[q], w[q]>> ELSE <<v[q]>>]]
NoLabels == [form |-> "none", val |-> 0, is |-> <<>>]
SourceOnly(s, nb, no) == [src |-> Labels(s, nb, no), tgt |-> NoLabels]
(* targets avoid the sources when both are single labels *)
SourceTarget(s, nb, no) ==
  LET a == Labels(s, nb, no) IN
  IF Mix(s, 3) % 3 = 0 THEN [src |-> a, tgt |-> NoLabels]
  ELSE LET z == [q \in 1..nb |-> LET free == SelectSeq([j \in 1..no |-> j - 1], LAMBDA j : \A k \in 1..Len(a.is[q]) : a.is[q][k] # j)
                                 IN RndOf(Seed(s, q), 2, free)]
           f == RndOf(s, 4, <<"array", "list", "column", "mask">>)
       IN [src |-> a,
           tgt |-> [form |-> IF f = "list" THEN "list" ELSE "array",
                    val |-> CASE f = "column" -> [q \in 1..nb |-> <<z[q]>>]
                              [] f = "mask" -> [q \in 1..nb |-> [j \in 1..no |-> IF j - 1 = z[q] THEN 1 ELSE 0]]
                              [] OTHER -> z,
                    is |-> [q \in 1..nb |-> <<z[q]>>]]]

FormOf(m, s) == RndOf(s, 90, <<"default", "TT", "TF", "FT">>)
AnyConv(s, i) == LET m == AllMethods[1 + (i % 7)] IN Conv(m, RndOf(s, 91, SlopesAll), FormOf(m, s))
FwdConv(s, i) == LET m == FwdMethods[1 + (i % 3)] IN Conv(m, RndOf(s, 91, SlopesAll), FormOf(m, s))

(* ------------------------------------------------------------ C10: ranges -------------------------------- *)
RangeHist(s, i, nb) ==
  LET batch == RndOf(s, 1, <<<<1, 2, 3, 4>>, <<4, 2, 1>>, <<2, 2, 3>>, <<3>>, <<1, 4>>>>)
      nsub == RndOf(s, 2, <<1, 1, 2, 3, 4, 5, 8>>)
      fn == RndOf(s, 3, <<"range", "range", "upper", "lower">>)
      st == RangeQ(i, fn, batch, -1, nsub)
  IN <<st, Again(st, RndOf(s, 4, <<1, 2, 3>>)), Again(st, RndOf(s, 5, <<2, 4, 7>>))>>
RangeCases(num) ==
  [c \in 1..num |->
     LET s == Seed(seed, 3000 + c)
         nin == 1 + (c % 3)
         kind == c % 8
         net == CASE kind = 4 -> SmallConv(s) [] kind = 5 -> NestNet(s) [] kind = 6 -> MapNet(s) [] kind = 7 -> MapNet(s + 1) [] OTHER -> ClassNet(s, nin, 1 + (c % 2), RndIn(s, 2, 1, 4), "relu")
         n2 == IF kind > 3 THEN 2 ELSE nin
         bx == Boxes(s, n2, <<0, RndOf(s, 1, <<1, 2, 6>>), RndOf(s, 2, <<3, 4, 5>>), 0>>)
         cvs == <<AnyConv(Seed(s, 1), c), AnyConv(Seed(s, 2), c + 3)>>
     IN BoxSession("range" \o ToString(c), "range", <<net>>, bx, s, cvs,
          <<RangeHist(Seed(s, 3), 0, 4), RangeHist(Seed(s, 4), 1, 4), RangeHist(Seed(s, 5), 1, 4), RangeHist(Seed(s, 6), 2, 4), RangeHist(Seed(s, 7), 2, 4)>>, Both)]

(* ------------------------------------------------------------ C12: adversarial scores -------------------- *)
AdvHist(s, i, no) ==
  LET batch == RndOf(s, 1, <<<<1, 2, 3, 4>>, <<4, 2, 1>>, <<2, 3, 1>>, <<3>>, <<1, 4>>>>)
      lab == SourceTarget(Seed(s, 9), Len(batch), no)
      st == Adv(i, batch, lab, -1, RndOf(s, 2, <<1, 1, 2, 3, 4>>))
      ck == CheckAdv(i, batch, lab, -1)
  IN <<st, Again(st, RndOf(s, 4, <<1, 2, 3, 5>>)), ck, Again(ck, RndOf(s, 5, <<1, 2, 3>>))>>
AdvCases(num) ==
  [c \in 1..num |->
     LET s == Seed(seed, 3300 + c)
         nin == 1 + (c % 3)
         no == RndIn(s, 2, 2, 4)
         bx0 == Boxes(s, nin, <<0, RndOf(s, 1, <<1, 6>>), RndOf(s, 2, <<3, 4, 5>>), 0>>)
         net == IF c % 4 = 3 THEN LET a == AffineNet(s, nin, bx0) IN
                  Net(nin, Append(a.nodes, DenseN(Len(a.nodes) - 1, NOutOf(a), no, "none", Seed(s, 77)))) ELSE ClassNet(s, nin, 1 + (c % 2), no, "relu")
         cvs == <<AnyConv(Seed(s, 1), c), AnyConv(Seed(s, 2), c + 3), AnyConv(Seed(s, 8), c + 5),
                  WithSpec([AnyConv(Seed(s, 8), c) EXCEPT !.m = CrownMethods[1 + (c % 4)]])>>       \* bounds of the margins
     IN BoxSession("adv" \o ToString(c), "adv", <<net>>, bx0, s, cvs,
          <<AdvHist(Seed(s, 3), 0, no), AdvHist(Seed(s, 4), 1, no), AdvHist(Seed(s, 5), 1, no), AdvHist(Seed(s, 6), 2, no), AdvHist(Seed(s, 7), 3, no),
            SubSeq(AdvHist(Seed(s, 10), 4, no), 1, 2), SubSeq(AdvHist(Seed(s, 11), 4, no), 1, 2)>>, Both)]

(* ------------------------------------------------------------ C20: refined searches ---------------------- *)
RefineHist(s, i, no, ibponly) ==
  LET batch == RndOf(s, 1, <<<<1, 2, 3, 4>>, <<4, 2, 1>>, <<2, 3, 1>>, <<3>>, <<1, 4>>>>)
      lab == SourceTarget(Seed(s, 9), Len(batch), no)
      fn == RndOf(s, 2, <<"upper", "lower", "adv", "check", "upper", "lower">>)
      st == Refine(i, fn, batch, lab, RndIn(s, 3, 1, 7), -1, Mix(s, 4) % 2 = 0, Mix(s, 5) % 1000)
  IN <<st, Again(st, RndOf(s, 6, <<1, 2, 3, 5>>))>>
RefineCases(num) ==
  [c \in 1..num |->
     LET s == Seed(seed, 3600 + c)
         nin == 1 + (c % 3)
         no == RndIn(s, 2, 2, 4)
         bx == Boxes(s, nin, <<0, RndOf(s, 1, <<1, 6>>), RndOf(s, 2, <<3, 4, 5>>), 0>>)
         cvs == <<AnyConv(Seed(s, 1), c), Conv("forward-ibp", "volume-slope", "default")>>
     IN BoxSession("refine" \o ToString(c), "refine", <<ClassNet(s, nin, 1 + (c % 2), no, "relu")>>, bx, s, cvs,
          <<RefineHist(Seed(s, 3), 0, no, FALSE), RefineHist(Seed(s, 4), 1, no, FALSE), RefineHist(Seed(s, 5), 1, no, FALSE),
            RefineHist(Seed(s, 6), 2, no, TRUE), RefineHist(Seed(s, 7), 2, no, TRUE)>>, Both)]

(* ------------------------------------------------------------ C13: noise --------------------------------- *)
RndDom(s) == BallDoms[1 + (Mix(s, 1) % 9)]
NoiseStep(s, i, no, nb) ==
  LET batch == RndOf(s, 1, <<<<1, 2, 3>>, <<3, 2, 1>>, <<2>>, <<2, 2, 1>>>>)
      d == RndDom(Seed(s, 2))
      eps == IF Mix(s, 3) % 4 = 0 THEN -1 ELSE IF Mix(s, 3) % 8 = 1 THEN 0 ELSE d.eps
  IN IF Mix(s, 4) % 2 = 0 THEN Noise(i, RndOf(s, 5, <<"range", "range", "upper", "lower">>), batch, d.p, eps, RndOf(s, 6, <<-1, 1, 2, 5>>))
     ELSE AdvNoise(i, batch, SourceTarget(Seed(s, 9), Len(batch), no), d.p, eps, RndOf(s, 6, <<-1, 1, 2, 5>>))
NoiseHist(s, i, no) ==
  LET a == NoiseStep(Seed(s, 1), i, no, 3) b == NoiseStep(Seed(s, 2), i, no, 3) d == NoiseStep(Seed(s, 3), i, no, 3) IN
  <<a, [b EXCEPT !.bs = -1], Again([b EXCEPT !.eps = IF i = 0 THEN b.eps ELSE -1], RndOf(s, 7, <<1, 2, 3>>)), d>>
  \o (IF i = 0 THEN <<>> ELSE <<Call(i, <<1, 2, 3>>), NoiseStep(Seed(s, 4), i, no, 3)>>)
NoiseCases(num) ==
  [c \in 1..num |->
     LET s == Seed(seed, 3900 + c)
         nin == 1 + (c % 3)
         no == RndIn(s, 2, 2, 4)
         cs == Centers(s, nin, 3)
         hull == [b \in 1..3 |-> BallHull(cs[b], 20)]
         net == IF c % 4 = 3 THEN LET a == AffineNet(s, nin, hull) IN
                  Net(nin, Append(a.nodes, DenseN(Len(a.nodes) - 1, NOutOf(a), no, "none", Seed(s, 77)))) ELSE ClassNet(s, nin, 1 + (c % 2), no, "relu")
         d1 == RndDom(Seed(s, 31)) d2 == RndDom(Seed(s, 32)) d3 == RndDom(Seed(s, 33))
         cvs == <<OnBall(AnyConv(Seed(s, 1), c), d1.p, d1.eps), OnBall(AnyConv(Seed(s, 2), c + 3), d2.p, d2.eps), OnBall(AnyConv(Seed(s, 8), c + 5), d3.p, d3.eps)>>
     IN BallSession("noise" \o ToString(c), "noise", <<net>>, cs, s, cvs,
          <<NoiseHist(Seed(s, 3), 0, no), NoiseHist(Seed(s, 4), 1, no), NoiseHist(Seed(s, 6), 2, no), NoiseHist(Seed(s, 7), 3, no)>>, Both)]

(* ------------------------------------------------------------ C14: weights ------------------------------- *)
FollowNet(s, c) ==
  CASE c % 7 = 0 -> SmallConv(s) [] c % 7 = 1 -> BnNet(s) [] c % 7 = 2 -> ResNet(s) [] c % 7 = 3 -> TwinNet(s) [] c % 7 = 4 -> NestNet(s) [] c % 7 = 5 -> ChainNet(s)
    [] OTHER -> ClassNet(s, 1 + (c % 3), 1 + (c % 2), RndIn(s, 2, 1, 3), IF c % 14 = 13 THEN "sigmoid" ELSE "relu")
OnlyForward(net) == \E k \in 2..Len(net.nodes) : net.nodes[k].op \in {"add", "sub", "max", "min", "mul", "avg", "concat", "dot"}
FollowCases(num) ==
  [c \in 1..num |->
     LET s == Seed(seed, 4200 + c)
         net == FollowNet(s, c)
         cv(z, i) == IF OnlyForward(net) THEN FwdConv(z, i) ELSE AnyConv(z, i)
         k == c + c \div 7      \* every network meets every method
         back(z, i) == IF OnlyForward(net) THEN FwdConv(z, i) ELSE [AnyConv(z, i) EXCEPT !.m = CrownMethods[1 + (i % 4)]]
         cvs == <<cv(Seed(s, 1), k), back(Seed(s, 2), k), Copied(cv(Seed(s, 3), k + 2)), Copied(FwdConv(Seed(s, 4), k))>>
         calls == [i \in 1..4 |-> Call(i, <<1, 2, 3>>)]
     IN BoxSession("follow" \o ToString(c), "follow", <<net, Reweight(net, s + 7), Reweight(net, s + 9)>>, Boxes(s, net.nin, <<0, 6, RndOf(s, 2, <<3, 4, 5>>)>>), s, cvs,
          <<<<Call(1, <<1, 2>>), SetW(2), Call(1, <<1, 2, 3>>), Call(2, <<3, 2>>), Call(4, <<1, 2>>), Reconv(3), Call(3, <<1>>), SetW(3), Call(2, <<1, 2, 3>>), Call(1, <<2>>), Call(4, <<3>>)>>,
            calls \o <<SetW(3), Reconv(2), Call(1, <<1, 2, 3>>), Call(2, <<1, 2, 3>>), Reconv(3), Call(3, <<1, 2, 3>>)>>>>, Both)]

(* ------------------------------------------------------------ C15: fine-tuning --------------------------- *)
TuneCases(num) ==
  [c \in 1..num |->
     LET s == Seed(seed, 4500 + c)
         act == <<"relu", "relu", "sigmoid", "tanh", "softsign", "softplus", "relu">>[1 + (c % 7)]
         sl(z) == IF act = "softplus" THEN RndOf(z, 91, SubSeq(SlopesAll, 1, 4)) ELSE RndOf(z, 91, SlopesAll)
         net == IF c % 7 = 6 THEN SmallConv(s) ELSE ClassNet(s, 1 + (c % 3), 1 + (c % 2), RndIn(s, 2, 1, 3), act)
         cv(z, i) == Tuned([AnyConv(z, i) EXCEPT !.slope = sl(z)])
         k == c + c \div 7
         cvs == <<cv(Seed(s, 1), k), cv(Seed(s, 2), k + 3)>>
         b == <<1, 2, 3>>
         h(i, z) == <<Call(i, b), Tune(i, 1 + (Mix(z, 1) % 900)), Call(i, b), Tune(i, 1 + (Mix(z, 2) % 900)), Call(i, <<3, 1>>), Reset(i), Call(i, b),
                      Tune(i, 1000), Call(i, b), Tune(i, 1001), Call(i, b), Tune(i, 1002), Call(i, b), Reset(i), Call(i, b)>>
     IN BoxSession("tune" \o ToString(c), "tune", <<net>>, Boxes(s, net.nin, <<0, RndOf(s, 1, <<1, 2, 6>>), RndOf(s, 2, <<3, 4, 5, 7>>)>>), s, cvs,
          <<h(1, Seed(s, 6)), h(2, Seed(s, 7))>>, Both)]

(* ------------------------------------------------------------ C16: batches ------------------------------- *)
BatchNet(s, c) ==
  CASE c % 9 = 0 -> SmallConv(s) [] c % 9 = 1 -> BnNet(s) [] c % 18 = 2 -> ResNet(s) [] c % 18 = 11 -> MapNet(s) [] c % 9 = 3 -> TwinNet(s) [] c % 9 = 4 -> NestNet(s)
    [] c % 9 = 5 -> GeoNet(<<PoolN(2, <<2, 2>>, <<1, 1>>, "valid", "channels_last")>>, <<3, 3, 2>>, "channels_last", TRUE, s)
    [] c % 9 = 6 -> Net(2, <<InN, DenseN(0, 2, 3, "relu", s), DenseN(0, 2, 3, "none", s + 1),
                             MergeN(RndOf(s, 8, <<"max", "min", "mul", "concat", "avg">>), <<1, 2>>)>>)
    [] OTHER -> ClassNet(s, 1 + (c % 3), 1 + (c % 2), RndIn(s, 2, 1, 3), RndOf(s, 7, <<"relu", "relu", "sigmoid", "tanh", "softsign">>))
NoBackward(net) == OnlyForward(net) \/ \E k \in 2..Len(net.nodes) : net.nodes[k].op = "maxpool"
BatchCases(num) ==
  [c \in 1..num |->
     LET s == Seed(seed, 4800 + c)
         net == BatchNet(s, c)
         cv(z, i) == IF NoBackward(net) THEN FwdConv(z, i) ELSE AnyConv(z, i)
         ball == c % 4 = 3
         d == RndDom(Seed(s, 31))
         cvs0 == <<cv(Seed(s, 1), c), cv(Seed(s, 2), c + 1), cv(Seed(s, 3), c + 2)>>
         cvs == IF ball THEN [i \in 1..3 |-> OnBall(cvs0[i], d.p, d.eps)] ELSE cvs0
         h(i) == <<Call(i, <<1, 2, 3, 4>>), Call(i, <<2>>), Call(i, <<4, 3, 2, 1>>), Call(i, <<3, 3, 1>>), Call(i, <<1, 4, 2, 3, 1, 2>>)>>
     IN IF ball THEN BallSession("batch" \o ToString(c), "batch", <<net>>, Centers(s, net.nin, 4), s, cvs, <<h(1), h(2), h(3)>>, Both)
        ELSE BoxSession("batch" \o ToString(c), "batch", <<net>>, Boxes(s, net.nin, EqStyles(s)), s, cvs, <<h(1), h(2), h(3)>>, Both)]

(* ------------------------------------------------------------ C17: linear specifications ----------------- *)
SpecMat(s, no, nc) == [j \in 1..no |-> [k \in 1..nc |-> RndIn(Seed(s, j), k, -2, 2)]]
SpecCases(num) ==
  [c \in 1..num |->
     LET s == Seed(seed, 5100 + c)
         nin == 1 + (c % 3)
         no == RndIn(s, 2, 2, 4)
         net == IF c % 5 = 4 THEN SmallConv(s) ELSE ClassNet(s, nin, 1 + (c % 2), no, IF c % 5 = 3 THEN "sigmoid" ELSE "relu")
         n2 == NOutOf(net)
         m == AllMethods[1 + (c % 7)]
         cvs == <<WithSpec(Conv(m, RndOf(s, 91, SlopesAll), RndOf(s, 90, <<"default", "TT", "TF", "FT">>))),
                  WithSpec(Conv(CrownMethods[1 + (c % 4)], RndOf(s, 92, SlopesAll), RndOf(s, 93, <<"default", "TT", "TF", "FT">>)))>>
         nc == RndIn(s, 6, 1, 3)
         h(i, z) == <<CallC(i, <<1, 2, 3>>, [q \in 1..3 |-> SpecMat(Seed(z, q), n2, nc)]), CallC(i, <<3>>, <<SpecMat(Seed(z, 8), n2, nc)>>),
                      CallC(i, <<2, 2>>, [q \in 1..2 |-> SpecMat(Seed(z, 10 + q), n2, nc)])>>
     IN BoxSession("spec" \o ToString(c), "spec", <<net>>, Boxes(s, net.nin, <<0, RndOf(s, 1, <<1, 2, 6>>), RndOf(s, 2, <<3, 4, 5, 7>>)>>), s, cvs,
          <<h(1, Seed(s, 3)), h(2, Seed(s, 4))>>, Both)]

(* ------------------------------------------------------------ C18: histories ----------------------------- *)
SplitHist(cs, n) ==      \* smaller cases, to balance the replay
  [q \in 1..CeilDiv(Len(cs.hist), n) |-> [cs EXCEPT !.id = cs.id \o "-" \o ToString(q), !.hist = SubSeq(cs.hist, (q - 1) * n + 1, Mn(q * n, Len(cs.hist)))]]
(* all the histories of 3 steps over an alphabet, on a small network, followed by a call of each conversion *)
ExhAlphabetBox(no) ==
  LET one == [src |-> [form |-> "int", val |-> 0, is |-> <<<<0>>, <<0>>>>], tgt |-> NoLabels] IN
  <<SetW(1), SetW(2), Reconv(1), Tune(2, 5), Reset(2), Call(1, <<2, 1>>), RangeQ(1, "range", <<1, 2>>, 1, 2), RangeQ(0, "upper", <<2, 1>>, -1, 1),
    Adv(2, <<1, 2>>, one, -1, 1), Refine(1, "upper", <<1, 2>>, one, 3, -1, FALSE, 1)>>
ExhAlphabetBall(no) ==
  LET one == [src |-> [form |-> "int", val |-> 0, is |-> <<<<0>>, <<0>>>>], tgt |-> NoLabels] IN
  <<SetW(1), SetW(2), Reconv(1), SetDom(1, Ball("1", 10)), SetDom(1, Ball("inf", 20)), SetDom(2, Ball("2", 20)), Call(1, <<2, 1>>),
    Noise(1, "range", <<1, 2>>, "2", 0, -1), Noise(2, "range", <<1, 2>>, "inf", -1, 1), AdvNoise(2, <<1, 2>>, one, "1", 0, -1), Noise(0, "range", <<1>>, "1", 10, -1)>>
ExhCases(len) ==
  FlattenSeq([c \in 1..4 |->
     LET s == Seed(seed, 5400 + c)
         nin == 2
         net == ClassNet(s, nin, 1, 2, "relu")
         nets == <<net, Reweight(net, s + 3)>>
         m1 == AllMethods[1 + ((seed + c) % 7)] m2 == AllMethods[1 + ((seed + c + 3) % 7)]
         cvs0 == <<Conv(m1, RndOf(s, 1, SlopesAll), "TT"), Tuned(Conv(m2, RndOf(s, 2, SlopesAll), "default"))>>
         last == <<Call(1, <<1, 2>>), Call(2, <<2, 1>>)>>
         box == BoxSession("exh" \o ToString(c), "exh", nets, Boxes(s, nin, <<0, 0>>), s, cvs0, <<>>, Both)
         bdoms == <<OnBall(cvs0[1], "2", 10), OnBall(cvs0[2], "1", 5)>>
         ball == BallSession("exhb" \o ToString(c), "exh", nets, Centers(s, nin, 2), s, bdoms, <<>>, Both)
         close(cs, al) == LET ps == Paths(cs, InitState(cs), al, len) IN [cs EXCEPT !.hist = [q \in 1..Len(ps) |-> ps[q] \o last]]
     IN IF c % 2 = 0 THEN SplitHist(close(box, ExhAlphabetBox(2)), 40) ELSE SplitHist(close(ball, ExhAlphabetBall(2)), 40)])
(* random walks of the state machine *)
RndStep(case, s, no) ==
  LET i == 1 + (Mix(s, 1) % Len(case.convs))
      k == Mix(s, 2) % 12
      nb == Len(case.boxes)
      batch == BatchOf(Seed(s, 3), nb)
      lab == SourceTarget(Seed(s, 9), Len(batch), no)
      z == Mix(s, 4) % 3
      j == IF z = 0 THEN 0 ELSE i
      bs == RndOf(s, 5, <<-1, -1, 1, 2>>)
  IN CASE k = 0 -> SetW(1 + (Mix(s, 6) % Len(case.nets)))
       [] k = 1 -> Reconv(i)
       [] k = 2 -> IF case.convs[i].finetune THEN Tune(i, 1 + (Mix(s, 7) % 900)) ELSE Call(i, batch)
       [] k = 3 -> IF case.convs[i].finetune THEN Reset(i) ELSE Call(i, batch)
       [] k \in {4, 5} -> IF case.dom = "ball" THEN SetDom(i, RndDom(Seed(s, 8))) ELSE RangeQ(j, "range", batch, bs, RndOf(s, 10, <<1, 2, 4>>))
       [] k \in {6, 7} -> IF case.dom = "ball" THEN NoiseStep(Seed(s, 11), j, no, nb) ELSE Adv(j, batch, lab, bs, RndOf(s, 10, <<1, 2>>))
       [] k = 8 -> IF case.dom = "ball" THEN NoiseStep(Seed(s, 12), i, no, nb)
                   ELSE Refine(i, RndOf(s, 13, <<"upper", "lower">>), batch, lab, RndIn(s, 14, 1, 5), bs, Mix(s, 15) % 2 = 0, Mix(s, 16) % 1000)
       [] OTHER -> Call(i, batch)
Walk(case, s, n, no) ==
  LET f(acc, k) == LET st == RndStep(case, Seed(s, 100 + k), no) IN
        IF Enabled(case, acc.st, st) THEN [st |-> Apply(case, acc.st, st), h |-> Append(acc.h, st)] ELSE acc
      r == FoldLeft(f, [st |-> InitState(case), h |-> <<>>], [k \in 1..n |-> k])
  IN r.h \o [i \in 1..Len(case.convs) |-> Call(i, <<1>>)]
WalkCases(num) ==
  [c \in 1..num |->
     LET s == Seed(seed, 5700 + c)
         nin == 1 + (c % 3)
         no == RndIn(s, 2, 2, 3)
         net == IF c % 5 = 4 THEN SmallConv(s) ELSE IF c % 5 = 3 THEN NestNet(s) ELSE ClassNet(s, nin, 1 + (c % 2), no, IF c % 10 = 7 THEN "sigmoid" ELSE "relu")
         nets == <<net, Reweight(net, s + 3), Reweight(net, s + 5)>>
         tn(cv, z) == IF z % 2 = 0 THEN Tuned(cv) ELSE cv
         cvs0 == [i \in 1..3 |-> tn(AnyConv(Seed(s, i), c + 2 * i), c + i)]
         base == IF c % 2 = 0 THEN BoxSession("walk" \o ToString(c), "walk", nets, Boxes(s, net.nin, EqStyles(s)), s, cvs0, <<>>, Both)
                 ELSE BallSession("walk" \o ToString(c), "walk", nets, Centers(s, net.nin, 3), s,
                        [i \in 1..3 |-> LET d == RndDom(Seed(s, 40 + i)) IN OnBall(cvs0[i], d.p, d.eps)], <<>>, Both)
         n2 == NOutOf(net)
     IN [base EXCEPT !.hist = [h \in 1..4 |-> Walk(base, Seed(s, 60 + h), 12, n2)]]]

(* the bounds of freshly converted networks which the calls of a case are compared with *)
Refs(case) ==
  LET of(hist) == LET sts == StatesAlong(case, hist) IN
        {[i |-> hist[k].i, wv |-> WeightsOf(sts[k], hist[k].i), dom |-> sts[k].dom[hist[k].i]] :
           k \in {q \in 1..Len(hist) : (hist[q].op = "call" /\ sts[q].par[hist[q].i] = 0)
                                      \/ (hist[q].op = "refine" /\ hist[q].i > 0 /\ case.convs[hist[q].i].m = "forward-ibp")}}
  IN case @@ [refs |-> SetToSeq(UNION {of(case.hist[h]) : h \in 1..Len(case.hist)})]

N(k) == atoi(IOEnv["N_" \o k])
Fam(k, F(_)) == IF ("N_" \o k) \in DOMAIN IOEnv THEN F(N(k)) ELSE <<>>
AllCases ==
  Fam("RANGE", LAMBDA n : RangeCases(n)) \o Fam("ADV", LAMBDA n : AdvCases(n)) \o Fam("REFINE", LAMBDA n : RefineCases(n))
  \o Fam("NOISE", LAMBDA n : NoiseCases(n)) \o Fam("FOLLOW", LAMBDA n : FollowCases(n)) \o Fam("TUNE", LAMBDA n : TuneCases(n))
  \o Fam("BATCH", LAMBDA n : BatchCases(n)) \o Fam("SPEC", LAMBDA n : SpecCases(n)) \o Fam("EXH", LAMBDA n : ExhCases(n))
  \o Fam("WALK", LAMBDA n : WalkCases(n))
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = JsonSerialize(IOEnv.OUT, [q \in 1..Len(AllCases) |-> Refs(AllCases[q])])
Spec == Init /\ [][Next]_done
=============================================================================
