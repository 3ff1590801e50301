------------------------------- MODULE NetSem -------------------------------
(* Exact semantics of the networks the checks are run on.                                                    *)
(*                                                                                                           *)
(* A network is a record [nin, nodes, out]: nodes[1] is the input, every other node has an operation "op",    *)
(* the indices "in" of the nodes it reads (0-based as in the JSON exchanged with the harness), and the        *)
(* parameters of the operation.  Weights are integers over the denominator "wden".  A tensor is the flat      *)
(* row-major sequence of its entries (batch axis excluded), each an integer over the denominator of the node. *)
EXTENDS Num

Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Wden(nd) == Get(nd, "wden", 1)

(* ------------------------------------------------------------------ shapes ------------------------------ *)
Spatial(shape, df) == IF df = "channels_first" THEN <<shape[2], shape[3], shape[1]>> ELSE shape   \* <<H, W, C>>
Unspatial(hwc, df) == IF df = "channels_first" THEN <<hwc[3], hwc[1], hwc[2]>> ELSE hwc

OutLen(n, k, s, d, pad) == IF pad = "same" THEN CeilDiv(n, s) ELSE ((n - ((k - 1) * d + 1)) \div s) + 1
PadBefore(n, k, s, d, pad) ==
  IF pad = "same" THEN Pos((OutLen(n, k, s, d, pad) - 1) * s + (k - 1) * d + 1 - n) \div 2 ELSE 0

NodeShape(nd, shapes) ==
  LET i1 == shapes[nd["in"][1] + 1]
  IN CASE nd.op \in {"act", "bn", "dropout", "add", "avg", "sub", "max", "min", "mul"} -> i1
       [] nd.op = "dense" -> [j \in 1..Len(i1) |-> IF j = Len(i1) THEN nd.units ELSE i1[j]]
       [] nd.op = "reshape" -> nd.shape
       [] nd.op = "permute" -> [j \in 1..Len(i1) |-> i1[nd.dims[j]]]
       [] nd.op = "flatten" -> <<ProdSeq(i1)>>
       [] nd.op = "conv" ->
            LET h == Spatial(i1, nd.df) IN
            Unspatial(<<OutLen(h[1], nd.kernel[1], nd.strides[1], nd.dilation[1], nd.padding),
                        OutLen(h[2], nd.kernel[2], nd.strides[2], nd.dilation[2], nd.padding), nd.filters>>, nd.df)
       [] nd.op = "maxpool" ->
            LET h == Spatial(i1, nd.df) IN
            Unspatial(<<OutLen(h[1], nd.pool[1], nd.strides[1], 1, nd.padding),
                        OutLen(h[2], nd.pool[2], nd.strides[2], 1, nd.padding), h[3]>>, nd.df)
       [] nd.op = "concat" ->
            [j \in 1..Len(i1) |-> IF j = (IF nd.axis = -1 THEN Len(i1) ELSE nd.axis)
                                  THEN SumSeq([q \in 1..Len(nd["in"]) |-> shapes[nd["in"][q] + 1][j]]) ELSE i1[j]]
       [] nd.op = "dot" -> IF Len(i1) = 1 THEN <<1>> ELSE <<i1[1], shapes[nd["in"][2] + 1][2]>>
       [] nd.op = "model" -> <<nd.nout>>

Shapes(net) ==
  FoldLeft(LAMBDA acc, nd : IF nd.op = "in" THEN Append(acc, <<net.nin>>) ELSE Append(acc, NodeShape(nd, acc)),
           <<>>, net.nodes)

(* denominators: the value of an entry of node k is its integer divided by Dens(net, xden)[k] *)
RECURSIVE Dens(_, _)
Dens(net, xden) ==
  LET step(acc, nd) ==
        IF nd.op = "in" THEN Append(acc, xden)
        ELSE LET ds == [q \in 1..Len(nd["in"]) |-> acc[nd["in"][q] + 1]]
                 m == MaxSeq(ds)           \* denominators are powers of two times the operands of averages
             IN Append(acc,
                  CASE nd.op \in {"dense", "conv", "bn"} -> ds[1] * Wden(nd)
                    [] nd.op = "avg" -> m * Len(ds)
                    [] nd.op \in {"mul", "dot"} -> ProdSeq(ds)
                    [] nd.op = "model" -> LET r == Dens(nd.net, ds[1]) IN r[Len(r)]
                    [] OTHER -> m)
  IN FoldLeft(step, <<>>, net.nodes)

(* ----------------------------------------------------- linear maps as index arithmetic ------------------ *)
RECURSIVE Strides(_)
Strides(shape) == IF Len(shape) = 0 THEN <<>>
                  ELSE <<ProdSeq(Tail(shape))>> \o Strides(Tail(shape))
Unravel(n, shape) ==       \* 0-based flat index -> 0-based multi-index
  LET st == Strides(shape) IN [j \in 1..Len(shape) |-> (n \div st[j]) % shape[j]]
Ravel(ix, shape) == LET st == Strides(shape) IN Dot(ix, st)

PermuteIdx(nd, ishape) ==  \* 1-based source index of every entry of the output
  LET oshape == [j \in 1..Len(ishape) |-> ishape[nd.dims[j]]] IN
  [n \in 1..ProdSeq(oshape) |->
     LET o == Unravel(n - 1, oshape)
         i == [j \in 1..Len(ishape) |-> o[CHOOSE q \in 1..Len(ishape) : nd.dims[q] = j]]
     IN Ravel(i, ishape) + 1]
FlattenIdx(nd, ishape) ==  \* Keras' Flatten(data_format="channels_first") moves the channels last first
  IF Get(nd, "df", "channels_last") = "channels_first" /\ Len(ishape) > 1
  THEN PermuteIdx([dims |-> [j \in 1..Len(ishape) |-> IF j = Len(ishape) THEN 1 ELSE j + 1]], ishape)
  ELSE [n \in 1..ProdSeq(ishape) |-> n]

(* the window of a convolution or pooling output: set of <<kh, kw, flat index of the input for channel c>> *)
HwcIdx(h, w, c, hwc, df) ==
  IF df = "channels_first" THEN (c * hwc[1] + h) * hwc[2] + w + 1 ELSE (h * hwc[2] + w) * hwc[3] + c + 1

Window(nd, hwc, k, dil, oh, ow) ==   \* sequence of <<kh, kw, h, w>> inside the image
  LET ph == PadBefore(hwc[1], k[1], nd.strides[1], dil[1], nd.padding)
      pw == PadBefore(hwc[2], k[2], nd.strides[2], dil[2], nd.padding)
      all == [n \in 1..(k[1] * k[2]) |->
                LET a == (n - 1) \div k[2] b == (n - 1) % k[2] IN
                <<a + 1, b + 1, oh * nd.strides[1] - ph + a * dil[1], ow * nd.strides[2] - pw + b * dil[2]>>]
  IN SelectSeq(all, LAMBDA q : q[3] >= 0 /\ q[3] < hwc[1] /\ q[4] >= 0 /\ q[4] < hwc[2])

(* Sparse rows of the affine layers: row n of Rows(nd, ishape) is a sequence of <<input index, weight>>. *)
DenseRows(nd, ishape) ==
  LET ni == ishape[Len(ishape)] no == nd.units m == ProdSeq(ishape) \div ni IN
  [n \in 1..(m * no) |->
     LET r == (n - 1) \div no o == ((n - 1) % no) + 1 IN
     [i \in 1..ni |-> <<r * ni + i, nd.W[i][o]>>]]
ConvRows(nd, ishape) ==
  LET hwc == Spatial(ishape, nd.df)
      osh == NodeShape(nd, [q \in 1..(nd["in"][1] + 1) |-> ishape])
      oh == Spatial(osh, nd.df)
      cs == hwc[3]
  IN [n \in 1..ProdSeq(osh) |->
        LET u == Unravel(n - 1, osh)
            o == IF nd.df = "channels_first" THEN <<u[2], u[3], u[1]>> ELSE u
            win == Window(nd, hwc, nd.kernel, nd.dilation, o[1], o[2])
        IN FlattenSeq([q \in 1..Len(win) |->
             [c \in 1..cs |-> <<HwcIdx(win[q][3], win[q][4], c - 1, hwc, nd.df), nd.W[win[q][1]][win[q][2]][c][o[3] + 1]>>]])]
ChannelOf(n, osh, df) == LET u == Unravel(n - 1, osh) IN IF df = "channels_first" THEN u[1] + 1 ELSE u[Len(u)] + 1
BnAxis(nd, r) == IF nd.axis = -1 THEN r ELSE nd.axis
(* batch normalization y = a x + c with a = gamma / sqrt(var), var a square: integers over wden *)
BnRoot(v4) == CASE v4 = 1 -> <<2, 1>> [] v4 = 4 -> <<1, 1>> [] v4 = 16 -> <<1, 2>>   \* 1/sqrt(v4/4) as a fraction
BnCoef(nd, c) == LET r == BnRoot(nd.var4[c]) IN (nd.gamma[c] * r[1]) \div r[2]
BnBias(nd, c) == nd.beta[c] - (BnCoef(nd, c) * nd.mean[c])     \* mean over denominator 1

Rows(nd, ishape) ==
  CASE nd.op = "dense" -> DenseRows(nd, ishape)
    [] nd.op = "conv" -> ConvRows(nd, ishape)
    [] nd.op = "bn" -> [n \in 1..ProdSeq(ishape) |->
         <<<<n, BnCoef(nd, Unravel(n - 1, ishape)[BnAxis(nd, Len(ishape))] + 1)>>>>]
BiasAt(nd, ishape, n) ==
  CASE nd.op = "dense" -> IF nd.use_bias THEN nd.b[((n - 1) % nd.units) + 1] ELSE 0
    [] nd.op = "conv" -> IF nd.use_bias
         THEN nd.b[ChannelOf(n, NodeShape(nd, [q \in 1..(nd["in"][1] + 1) |-> ishape]), nd.df)] ELSE 0
    [] nd.op = "bn" -> BnBias(nd, Unravel(n - 1, ishape)[BnAxis(nd, Len(ishape))] + 1)
Biases(nd, ishape, n) == TLCEval([i \in 1..n |-> BiasAt(nd, ishape, i)])

PoolWins(nd, ishape) ==
  LET hwc == Spatial(ishape, nd.df)
      osh == NodeShape(nd, [q \in 1..(nd["in"][1] + 1) |-> ishape])
  IN [n \in 1..ProdSeq(osh) |->
        LET u == Unravel(n - 1, osh)
            o == IF nd.df = "channels_first" THEN <<u[2], u[3], u[1]>> ELSE u
            win == Window(nd, hwc, nd.pool, <<1, 1>>, o[1], o[2])
        IN [q \in 1..Len(win) |-> HwcIdx(win[q][3], win[q][4], o[3], hwc, nd.df)]]

(* Concatenation: for every output entry, <<operand, index in the operand>> *)
ConcatIdx(nd, shs) ==
  LET r == Len(shs[1])
      ax == IF nd.axis = -1 THEN r ELSE nd.axis
      osh == [j \in 1..r |-> IF j = ax THEN SumSeq([q \in 1..Len(shs) |-> shs[q][j]]) ELSE shs[1][j]]
      off == [q \in 1..Len(shs) |-> SumSeq([p \in 1..(q - 1) |-> shs[p][ax]])]
  IN [n \in 1..ProdSeq(osh) |->
        LET o == Unravel(n - 1, osh)
            q == CHOOSE p \in 1..Len(shs) : off[p] <= o[ax] /\ o[ax] < off[p] + shs[p][ax]
        IN <<q, Ravel([j \in 1..r |-> IF j = ax THEN o[j] - off[q] ELSE o[j]], shs[q]) + 1>>]
(* Dot products: for every output entry, the pairs <<index in operand 1, index in operand 2>> *)
DotIdx(nd, shs) ==
  IF Len(shs[1]) = 1 THEN <<[i \in 1..shs[1][1] |-> <<i, i>>]>>
  ELSE LET m == shs[1][1] k == shs[1][2] p == shs[2][2] IN       \* axes (2, 1): matrix product
       [n \in 1..(m * p) |-> LET r == (n - 1) \div p c == (n - 1) % p IN
          [q \in 1..k |-> <<r * k + q, (q - 1) * p + c + 1>>]]

(* A network is compiled once into a plan: the index maps of each node, its shape and denominators. *)
RECURSIVE Plan(_, _)
Plan(net, xden) ==
  LET shs == TLCEval(Shapes(net))
      ds == TLCEval(Dens(net, xden))
      pre(k) ==
        LET nd == net.nodes[k]
            ish == shs[nd["in"][1] + 1]
            ishs == [q \in 1..Len(nd["in"]) |-> shs[nd["in"][q] + 1]]
            scale == [q \in 1..Len(nd["in"]) |->
                        (IF nd.op = "avg" THEN ds[k] \div Len(nd["in"]) ELSE ds[k]) \div ds[nd["in"][q] + 1]]
            base == [op |-> nd.op, in |-> [q \in 1..Len(nd["in"]) |-> nd["in"][q] + 1], n |-> ProdSeq(shs[k])]
        IN CASE nd.op \in {"dense", "conv", "bn"} ->
                  base @@ [rows |-> Rows(nd, ish),
                           bias |-> [i \in 1..ProdSeq(shs[k]) |->
                              BiasAt(nd, ish, i) * (IF nd.op = "bn" THEN ds[k] ELSE ds[k] \div Wden(nd))],
                           act |-> Get(nd, "act", "none")]
             [] nd.op = "act" -> base @@ [act |-> nd.fn]
             [] nd.op = "permute" -> base @@ [idx |-> PermuteIdx(nd, ish)]
             [] nd.op = "flatten" -> base @@ [idx |-> FlattenIdx(nd, ish)]
             [] nd.op = "maxpool" -> base @@ [wins |-> PoolWins(nd, ish)]
             [] nd.op = "concat" -> base @@ [idx2 |-> ConcatIdx(nd, ishs), scale |-> scale]
             [] nd.op = "dot" -> base @@ [pairs |-> DotIdx(nd, ishs)]
             [] nd.op = "model" -> base @@ [plan |-> Plan(nd.net, ds[nd["in"][1] + 1])]
             [] OTHER -> base @@ [scale |-> scale]
  IN TLCEval([nodes |-> [k \in 1..Len(net.nodes) |-> IF k = 1 THEN [op |-> "in", in |-> <<>>, n |-> net.nin] ELSE pre(k)],
              den |-> ds[Len(ds)], shapes |-> shs, dens |-> ds])

(* ------------------------------------------------------------- concrete semantics ----------------------- *)
PL == {"none", "linear", "relu", "softmax"}    \* a final softmax is bounded through its logits
ActVal(a, v) == CASE a \in {"none", "linear", "softmax"} -> v [] a = "relu" -> Pos(v)
SparseDot(row, x) == FoldLeft(LAMBDA acc, q : acc + q[2] * x[q[1]], 0, row)

RECURSIVE Eval(_, _)
NodeVal(p, vals) ==
  LET a == vals[p.in[1]] IN
  CASE p.op \in {"dense", "conv", "bn"} -> [n \in 1..p.n |-> ActVal(p.act, SparseDot(p.rows[n], a) + p.bias[n])]
    [] p.op = "act" -> [n \in 1..p.n |-> ActVal(p.act, a[n])]
    [] p.op \in {"reshape", "dropout"} -> a
    [] p.op \in {"permute", "flatten"} -> [n \in 1..p.n |-> a[p.idx[n]]]
    [] p.op = "maxpool" -> [n \in 1..p.n |-> MaxSeq([q \in 1..Len(p.wins[n]) |-> a[p.wins[n][q]]])]
    [] p.op \in {"add", "avg"} -> [n \in 1..p.n |-> SumSeq([q \in 1..Len(p.in) |-> vals[p.in[q]][n] * p.scale[q]])]
    [] p.op = "sub" -> [n \in 1..p.n |-> a[n] * p.scale[1] - vals[p.in[2]][n] * p.scale[2]]
    [] p.op = "max" -> [n \in 1..p.n |-> MaxSeq([q \in 1..Len(p.in) |-> vals[p.in[q]][n] * p.scale[q]])]
    [] p.op = "min" -> [n \in 1..p.n |-> MinSeq([q \in 1..Len(p.in) |-> vals[p.in[q]][n] * p.scale[q]])]
    [] p.op = "mul" -> [n \in 1..p.n |-> ProdSeq([q \in 1..Len(p.in) |-> vals[p.in[q]][n]])]
    [] p.op = "concat" -> [n \in 1..p.n |-> vals[p.in[p.idx2[n][1]]][p.idx2[n][2]] * p.scale[p.idx2[n][1]]]
    [] p.op = "dot" -> [n \in 1..p.n |->
         FoldLeft(LAMBDA acc, q : acc + a[q[1]] * vals[p.in[2]][q[2]], 0, p.pairs[n])]
    [] p.op = "model" -> Eval(p.plan, a)
AllVals(plan, x) ==
  FoldLeft(LAMBDA acc, p : Append(acc, IF p.op = "in" THEN x ELSE TLCEval(NodeVal(p, acc))), <<>>, plan.nodes)
Eval(plan, x) == LET v == AllVals(plan, x) IN v[Len(v)]

(* ---------------------------------------------- interval semantics (interval arithmetic, layer by layer) - *)
(* an interval tensor is [lo |-> tensor, hi |-> tensor] *)
ProdLo(a, b, c, d) == Mn(Mn(a * c, a * d), Mn(b * c, b * d))
ProdHi(a, b, c, d) == Mx(Mx(a * c, a * d), Mx(b * c, b * d))
SparseLo(row, x) == FoldLeft(LAMBDA acc, q : acc + (IF q[2] >= 0 THEN q[2] * x.lo[q[1]] ELSE q[2] * x.hi[q[1]]), 0, row)
SparseHi(row, x) == FoldLeft(LAMBDA acc, q : acc + (IF q[2] >= 0 THEN q[2] * x.hi[q[1]] ELSE q[2] * x.lo[q[1]]), 0, row)

RECURSIVE IEval(_, _)
NodeItv(p, vals) ==
  LET a == vals[p.in[1]]
      mk(f(_), g(_)) == [lo |-> TLCEval([n \in 1..p.n |-> f(n)]), hi |-> TLCEval([n \in 1..p.n |-> g(n)])]
      ops(n, s) == [q \in 1..Len(p.in) |-> (IF s = 0 THEN vals[p.in[q]].lo[n] ELSE vals[p.in[q]].hi[n]) * p.scale[q]]
  IN CASE p.op \in {"dense", "conv", "bn"} ->
            mk(LAMBDA n : ActVal(p.act, SparseLo(p.rows[n], a) + p.bias[n]),
               LAMBDA n : ActVal(p.act, SparseHi(p.rows[n], a) + p.bias[n]))
       [] p.op = "act" -> mk(LAMBDA n : ActVal(p.act, a.lo[n]), LAMBDA n : ActVal(p.act, a.hi[n]))
       [] p.op \in {"reshape", "dropout"} -> a
       [] p.op \in {"permute", "flatten"} -> mk(LAMBDA n : a.lo[p.idx[n]], LAMBDA n : a.hi[p.idx[n]])
       [] p.op = "maxpool" -> mk(LAMBDA n : MaxSeq([q \in 1..Len(p.wins[n]) |-> a.lo[p.wins[n][q]]]),
                                 LAMBDA n : MaxSeq([q \in 1..Len(p.wins[n]) |-> a.hi[p.wins[n][q]]]))
       [] p.op \in {"add", "avg"} -> mk(LAMBDA n : SumSeq(ops(n, 0)), LAMBDA n : SumSeq(ops(n, 1)))
       [] p.op = "sub" -> mk(LAMBDA n : ops(n, 0)[1] - ops(n, 1)[2], LAMBDA n : ops(n, 1)[1] - ops(n, 0)[2])
       [] p.op = "max" -> mk(LAMBDA n : MaxSeq(ops(n, 0)), LAMBDA n : MaxSeq(ops(n, 1)))
       [] p.op = "min" -> mk(LAMBDA n : MinSeq(ops(n, 0)), LAMBDA n : MinSeq(ops(n, 1)))
       [] p.op = "mul" ->
            LET f(n) == FoldLeftDomain(LAMBDA acc, q :
                          IF q = 1 THEN acc
                          ELSE <<ProdLo(acc[1], acc[2], vals[p.in[q]].lo[n], vals[p.in[q]].hi[n]),
                                 ProdHi(acc[1], acc[2], vals[p.in[q]].lo[n], vals[p.in[q]].hi[n])>>,
                          <<a.lo[n], a.hi[n]>>, p.in)
            IN mk(LAMBDA n : f(n)[1], LAMBDA n : f(n)[2])
       [] p.op = "concat" -> mk(LAMBDA n : vals[p.in[p.idx2[n][1]]].lo[p.idx2[n][2]] * p.scale[p.idx2[n][1]],
                                LAMBDA n : vals[p.in[p.idx2[n][1]]].hi[p.idx2[n][2]] * p.scale[p.idx2[n][1]])
       [] p.op = "dot" ->
            LET b == vals[p.in[2]] IN
            mk(LAMBDA n : FoldLeft(LAMBDA acc, q : acc + ProdLo(a.lo[q[1]], a.hi[q[1]], b.lo[q[2]], b.hi[q[2]]), 0, p.pairs[n]),
               LAMBDA n : FoldLeft(LAMBDA acc, q : acc + ProdHi(a.lo[q[1]], a.hi[q[1]], b.lo[q[2]], b.hi[q[2]]), 0, p.pairs[n]))
       [] p.op = "model" -> IEval(p.plan, a)
AllItvs(plan, x) ==
  FoldLeft(LAMBDA acc, p : Append(acc, IF p.op = "in" THEN x ELSE NodeItv(p, acc)), <<>>, plan.nodes)
IEval(plan, x) == LET v == AllItvs(plan, x) IN v[Len(v)]

(* the largest magnitude met by interval propagation, rounded up: the scale of acceptable rounding errors *)
ItvMag(plan, itvs) == MaxSeq([k \in 1..Len(itvs) |->
                        CeilDiv(Mx(MaxAbs(itvs[k].lo), MaxAbs(itvs[k].hi)), plan.dens[k])])

(* does the network apply one of these activations / operations, at any depth *)
RECURSIVE HasFn(_, _)
HasFn(net, fns) == \E k \in 2..Len(net.nodes) :
  LET nd == net.nodes[k] IN Get(nd, "act", "none") \in fns \/ (nd.op = "act" /\ nd.fn \in fns) \/ (nd.op = "model" /\ HasFn(nd.net, fns))
RECURSIVE HasOp(_, _)
HasOp(net, ops) == \E k \in 2..Len(net.nodes) :
  LET nd == net.nodes[k] IN nd.op \in ops \/ (nd.op = "model" /\ HasOp(nd.net, ops))

(* every relu keeps a sign on the box: the network is affine there (no other piecewise operation allowed) *)
RECURSIVE AffineOn(_, _)
AffineOn(plan, box) ==
  LET v == AllItvs(plan, box) IN
  \A k \in 2..Len(plan.nodes) :
    LET p == plan.nodes[k]
        keeps(n, lo, hi) == lo >= 0 \/ hi <= 0
    IN CASE p.op \in {"dense", "conv", "bn"} ->
              p.act = "relu" => \A n \in 1..p.n :
                SparseLo(p.rows[n], v[p.in[1]]) + p.bias[n] >= 0 \/ SparseHi(p.rows[n], v[p.in[1]]) + p.bias[n] <= 0
         [] p.op = "act" -> p.act = "relu" => \A n \in 1..p.n : v[p.in[1]].lo[n] >= 0 \/ v[p.in[1]].hi[n] <= 0
         [] p.op \in {"max", "min", "mul", "dot", "maxpool"} -> FALSE
         [] p.op = "model" -> AffineOn(p.plan, v[p.in[1]])
         [] OTHER -> TRUE
=============================================================================
