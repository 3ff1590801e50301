------------------------------- MODULE GenOps -------------------------------
(* Scenarios for single operators, layers and backward layers: operands with consistent bounds of any tightness. *)
EXTENDS OpSem, Gen, Json, IOUtils
seed == atoi(IOEnv.SEED)
ODEN == 2 * XDEN      \* denominator of the biases and constants of the bounds

(* ------------------------------------------------------------- operands ---------------------------------- *)
(* how an operand is drawn: m magnitude of the coefficients, cm of the constants, shift of the constants *)
Kind(m, cm, shift) == [m |-> m, cm |-> cm, shift |-> shift]
Sample(s, hull, n, kd, slack) ==
  LET nx == Len(hull.lo)
      A == [i \in 1..nx |-> [j \in 1..n |-> RndIn(Seed(s, 7 * i), j, -kd.m, kd.m)]]
      c == [j \in 1..n |-> RndIn(Seed(s, 71), j, -kd.cm, kd.cm) + kd.shift]
      z(k, hi) == [j \in 1..n |-> IF slack THEN RndIn(Seed(s, k), j, 0, hi) ELSE 0]
      su == z(72, 2) sl == z(73, 2) cu == z(74, 2) cl == z(75, 2)      \* halves
      du == [i \in 1..nx |-> z(80 + i, 1)] dl == [i \in 1..nx |-> z(90 + i, 1)]
      sum(f(_)) == SumSeq([i \in 1..nx |-> f(i)])
  IN [A |-> A, c |-> c,
      wu |-> [i \in 1..nx |-> [j \in 1..n |-> A[i][j] + du[i][j]]],       \* du (x - lo) >= 0 on the domain
      wl |-> [i \in 1..nx |-> [j \in 1..n |-> A[i][j] - dl[i][j]]],
      bu |-> [j \in 1..n |-> ODEN * c[j] + XDEN * su[j] - 2 * sum(LAMBDA i : du[i][j] * hull.lo[i])],
      bl |-> [j \in 1..n |-> ODEN * c[j] - XDEN * sl[j] + 2 * sum(LAMBDA i : dl[i][j] * hull.lo[i])],
      u |-> [j \in 1..n |-> ODEN * c[j] + XDEN * cu[j] + 2 * sum(LAMBDA i : Mx(A[i][j] * hull.lo[i], A[i][j] * hull.hi[i]))],
      l |-> [j \in 1..n |-> ODEN * c[j] - XDEN * cl[j] + 2 * sum(LAMBDA i : Mn(A[i][j] * hull.lo[i], A[i][j] * hull.hi[i]))]]
Few(pts) == IF Len(pts) > 20 THEN SubSeq(pts, 1, 20) ELSE pts
Pts2(s, box) ==      \* corners, centre, some others
  IF box.lo = box.hi THEN <<box.lo>> ELSE GridPts(box, IF Len(box.lo) = 1 THEN 4 ELSE 2) \o RndPts(s, box, 4)

(* ------------------------------------------------------------- cases ------------------------------------- *)
Modes == <<"ibp", "affine", "hybrid">>
OpRuns(slopes, i) == [q \in 1..3 |-> [mode |-> Modes[q], slope |-> slopes[1 + ((i + q) % Len(slopes))]]]
(* cfg: [nd, shs, kd, nx, back] *)
Cfg(nd, shs) == [nd |-> nd, shs |-> shs, kd |-> Kind(2, 3, 0), nx |-> 2, back |-> FALSE]
OpCase(id, fam, cfg, slopes, i, r) ==
  LET s == Seed(Seed(seed, 6000 + i), r)
      ball == i % 4 = 3 /\ cfg.nx > 1
      p == <<"1", "2", "inf">>[1 + ((i \div 4 + r) % 3)]
      eps == RndOf(s, 5, <<5, 10, 20>>)
      ctr == [b \in 1..3 |-> [q \in 1..cfg.nx |-> 4 * RndIn(Seed(s, b), q, -6, 6)]]
      small == cfg.nd.op = "fn" /\ cfg.nd.fn = "exp"
      bx == IF ball THEN [b \in 1..3 |-> BallHull(ctr[b], eps)]
            ELSE Boxes(s, cfg.nx, IF small THEN <<6, 1, 6>> ELSE <<0, RndOf(s, 1, <<1, 2, 6>>), RndOf(s, 2, <<3, 4, 7, 0>>)>>)
      slack == (i + r) % 3 # 0
  IN [id |-> id \o "-" \o ToString(i) \o "-" \o ToString(r), fam |-> fam, nd |-> cfg.nd, shs |-> cfg.shs, nx |-> cfg.nx, xden |-> XDEN, oden |-> ODEN,
      dom |-> IF ball THEN "ball" ELSE "box", p |-> p, eps |-> eps, centers |-> ctr, boxes |-> bx, slack |-> slack, back |-> cfg.back,
      pts |-> [b \in 1..3 |-> IF ball THEN Few(BallPts(Seed(s, b), ctr[b], eps, p)) ELSE Pts2(Seed(s, b), bx[b])],
      ops |-> [q \in 1..Len(cfg.shs) |-> [b \in 1..3 |-> Sample(Seed(s, 100 * q + b), bx[b], ProdSeq(cfg.shs[q]), cfg.kd, slack)]],
      runs |-> OpRuns(slopes, i + r), be |-> Both]

(* ------------------------------------------------------------- operators --------------------------------- *)
Sh == <<<<3>>, <<2, 3>>, <<2, 3, 2>>>>
U(op) == [op |-> op]
Ax(op, a) == [op |-> op, axis |-> a]
Fn(f) == [op |-> "fn", fn |-> f]
AxesOf(sh) == [q \in 1..(Len(sh) + 1) |-> IF q > Len(sh) THEN -1 ELSE q]
(* permutation of permute_dimensions(axis a, position p): move axis a to position p *)
MoveAxis(r, a, p) == InsertAt(RemoveAt([q \in 1..r |-> q], a), p, a)
OpCfgs ==
  FlattenSeq([k \in 1..Len(Sh) |-> LET sh == Sh[k] two == <<sh, sh>> IN
     <<Cfg(U("add"), two), Cfg(U("sub"), two), Cfg(U("max"), two), Cfg(U("min"), two), Cfg(U("mul"), two),
       Cfg(U("minus"), <<sh>>), Cfg(U("relu"), <<sh>>), Cfg(U("abs"), <<sh>>), Cfg(U("pow"), <<sh>>),
       Cfg(Fn("softplus"), <<sh>>),
       [Cfg(Fn("exp"), <<sh>>) EXCEPT !.kd = Kind(1, 1, 0), !.nx = 1],
       [Cfg(Fn("log"), <<sh>>) EXCEPT !.kd = Kind(2, 3, 40)], [Cfg(Fn("frac_pos"), <<sh>>) EXCEPT !.kd = Kind(2, 3, 40)]>>
     \o FlattenSeq([q \in 1..(Len(sh) + 1) |-> LET a == AxesOf(sh)[q] IN
          <<Cfg(Ax("rmax", a), <<sh>>), Cfg(Ax("rmin", a), <<sh>>), Cfg(Ax("sum", a), <<sh>>), Cfg(Ax("sort", a), <<sh>>),
            Cfg(Ax("expand", a), <<sh>>), Cfg([op |-> "broadcast", n |-> 2, axis |-> a], <<sh>>), Cfg(Ax("split", a), <<sh>>)>>])
     \o (IF Len(sh) = 1 THEN <<>>
         ELSE FlattenSeq([a \in 1..Len(sh) |-> [p \in 1..Len(sh) |-> Cfg([op |-> "permute", dims |-> MoveAxis(Len(sh), a, p), axis |-> a, pos |-> p, in |-> <<0>>], <<sh>>)]]))])
OpCases(num) ==
  FlattenSeq([r \in 1..num |-> [i \in 1..Len(OpCfgs) |-> OpCase("op-" \o OpCfgs[i].nd.op, "op", OpCfgs[i], SubSeq(SlopesAll, 1, 4), i, r)]])

(* ------------------------------------------------------------- layers ------------------------------------ *)
B(cfg) == [cfg EXCEPT !.back = TRUE]
LayerCfgs(s) ==
  FlattenSeq([k \in 1..Len(Sh) |-> LET sh == Sh[k] two == <<sh, sh>> three == <<sh, sh, sh>> w == sh[Len(sh)] IN
     <<B(Cfg(U("add"), two)), Cfg(U("add"), three), B(Cfg(U("avg"), two)), B(Cfg(U("avg"), three)), B(Cfg(U("sub"), two)),
       B(Cfg(U("max"), two)), B(Cfg(U("min"), two)), Cfg(U("max"), three), Cfg(U("min"), three), Cfg(U("mul"), two), Cfg(U("mul"), three),
       B(Cfg(DenseB(0, w, 2, "none", TRUE, 1, s), <<sh>>)), B(Cfg(DenseB(0, w, 3, "none", FALSE, 2, s + 1), <<sh>>)),
       B(Cfg(U("relu"), <<sh>>)), B(Cfg(U("relu"), <<sh>>)), B(Cfg(U("relu"), <<sh>>)),
       B(Cfg(Fn("sigmoid"), <<sh>>)), B(Cfg(Fn("tanh"), <<sh>>)), B(Cfg(Fn("softsign"), <<sh>>)), B(Cfg(Fn("softplus"), <<sh>>)),
       B(Cfg(U("id"), <<sh>>)), B(Cfg(FlattenN(0, "channels_last"), <<sh>>)),
       B(Cfg(ReshapeN(0, <<ProdSeq(sh), 1>>), <<sh>>)),
       B(Cfg(BnN(0, w, -1, TRUE, TRUE, s + k), <<sh>>)), B(Cfg(BnN(0, sh[1], 1, k # 1, k # 2, s + 3 + k), <<sh>>))>>
     \o [q \in 1..(Len(sh) + 1) |-> Cfg([op |-> "concat", axis |-> AxesOf(sh)[q], in |-> <<0, 1>>],
           <<sh, [j \in 1..Len(sh) |-> IF j = AxisPos(AxesOf(sh)[q], Len(sh)) THEN 2 ELSE sh[j]]>>)]])
  \o <<Cfg([op |-> "dot", a1 |-> 1, a2 |-> 1], <<<<3>>, <<3>>>>), Cfg([op |-> "dot", a1 |-> -1, a2 |-> -1], <<<<3>>, <<3>>>>),
       Cfg([op |-> "dot", a1 |-> 2, a2 |-> 1], <<<<2, 3>>, <<3, 2>>>>), Cfg([op |-> "dot", a1 |-> 1, a2 |-> 1], <<<<2, 3>>, <<2, 2>>>>),
       Cfg([op |-> "dot", a1 |-> 2, a2 |-> 2], <<<<2, 3>>, <<2, 3>>>>), Cfg([op |-> "dot", a1 |-> -1, a2 |-> -1], <<<<2, 3>>, <<1, 3>>>>),
       Cfg([op |-> "dot", a1 |-> 1, a2 |-> 2], <<<<2, 3>>, <<3, 2>>>>),
       Cfg([op |-> "dot", a1 |-> 2, a2 |-> 1], <<<<2, 3>>, <<3>>>>), Cfg([op |-> "dot", a1 |-> 1, a2 |-> 2], <<<<3>>, <<2, 3>>>>),
       B(Cfg(PermuteN(0, <<2, 1>>), <<<<2, 3>>>>)), B(Cfg(PermuteN(0, <<3, 1, 2>>), <<<<2, 3, 2>>>>)), B(Cfg(PermuteN(0, <<2, 3, 1>>), <<<<2, 3, 2>>>>)),
       B(Cfg(ConvN(0, 2, 2, <<2, 2>>, <<1, 1>>, "valid", <<1, 1>>, "channels_last", "none", TRUE, s), <<<<3, 3, 2>>>>)),
       B(Cfg(ConvN(0, 1, 2, <<2, 3>>, <<1, 1>>, "same", <<1, 1>>, "channels_last", "none", TRUE, s + 1), <<<<3, 4, 1>>>>)),
       B(Cfg(ConvN(0, 2, 1, <<2, 1>>, <<2, 2>>, "valid", <<1, 1>>, "channels_last", "none", FALSE, s + 2), <<<<4, 3, 2>>>>)),
       Cfg(PoolN(0, <<2, 2>>, <<1, 1>>, "valid", "channels_last"), <<<<2, 3, 2>>>>), Cfg(PoolN(0, <<2, 2>>, <<2, 2>>, "same", "channels_last"), <<<<3, 3, 1>>>>)>>
LayerCases(num) ==
  FlattenSeq([r \in 1..num |-> LET cs == LayerCfgs(Seed(seed, 6500 + r)) IN
     [i \in 1..Len(cs) |-> OpCase("layer-" \o cs[i].nd.op, "layer", cs[i], IF cs[i].nd.op = "fn" /\ cs[i].nd.fn = "softplus" THEN SubSeq(SlopesAll, 1, 4) ELSE SlopesAll, i, r)]])

N(k) == atoi(IOEnv["N_" \o k])
Fam(k, F(_)) == IF ("N_" \o k) \in DOMAIN IOEnv THEN F(N(k)) ELSE <<>>
AllCases == Fam("OPS", LAMBDA n : OpCases(n)) \o Fam("LAYERS", LAMBDA n : LayerCases(n))
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = JsonSerialize(IOEnv.OUT, AllCases)
Spec == Init /\ [][Next]_done
=============================================================================
