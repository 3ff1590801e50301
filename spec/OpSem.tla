------------------------------- MODULE OpSem -------------------------------
(* Semantics of one operator or layer applied to operands given by their bounds.                              *)
(*                                                                                                           *)
(* Each operand is, for each sample of the batch, an affine function y(x) = A x + c of the input x of the     *)
(* network, known through bounds which are consistent on the domain of x: affine functions around it          *)
(* (w_u, b_u, w_l, b_l) and constants (u, l), all possibly loose.  An operator must answer with bounds of the  *)
(* image, whatever these bounds are.  Tensors are flat row-major sequences, the batch axis excluded.           *)
EXTENDS NetSem

AxisPos(axis, r) == IF axis < 0 THEN r + 1 + axis ELSE axis      \* 1-based position of an axis of a sample
Without(sh, p) == RemoveAt(sh, p)

(* operators which select entries of their operands: for each output entry <<operand, index>> *)
Selecting == {"id", "permute", "expand", "broadcast", "split", "concat", "flatten", "reshape"}
(* operators which combine groups of entries of one operand *)
Grouping == {"rmax", "rmin", "sum", "maxpool"}
Linear == {"dense", "conv", "bn"}
Elementwise == {"minus", "relu", "abs", "pow", "add", "avg", "sub", "max", "min", "mul"}
AffineOps == Selecting \cup Linear \cup {"minus", "add", "avg", "sub", "sum"}

(* ---------------------------------------------------------------- shapes of the outputs ------------------ *)
SplitOut(sh, p) == [j \in 1..sh[p] |-> [sh EXCEPT ![p] = 1]]
OutShapes(nd, shs) ==
  LET sh == shs[1] r == Len(sh) IN
  CASE nd.op \in Elementwise \cup {"id", "fn", "sort"} -> <<sh>>
    [] nd.op \in {"rmax", "rmin", "sum"} -> <<Without(sh, AxisPos(nd.axis, r))>>
    [] nd.op = "expand" -> <<InsertAt(sh, AxisPos(nd.axis, r + 1), 1)>>
    [] nd.op = "broadcast" -> <<FoldLeft(LAMBDA acc, q : InsertAt(acc, AxisPos(nd.axis, Len(acc) + 1), 1), sh, [q \in 1..nd.n |-> q])>>
    [] nd.op = "split" -> SplitOut(sh, AxisPos(nd.axis, r))
    [] nd.op = "dot" -> LET a == AxisPos(nd.a1, r) b == AxisPos(nd.a2, Len(shs[2]))
                            o == Without(sh, a) \o Without(shs[2], b) IN <<IF o = <<>> THEN <<1>> ELSE o>>
    [] OTHER -> <<NodeShape(nd, shs)>>
NOuts(nd, shs) == SumSeq([q \in 1..Len(OutShapes(nd, shs)) |-> ProdSeq(OutShapes(nd, shs)[q])])

(* ---------------------------------------------------------------- index maps ----------------------------- *)
GroupAlong(sh, p, n) ==      \* the entries along axis p, for the n-th (from 0) index of the other axes
  LET o == Unravel(n, Without(sh, p)) IN [j \in 1..sh[p] |-> Ravel(InsertAt(o, p, j - 1), sh) + 1]
Select(nd, shs) ==
  LET sh == shs[1] n == ProdSeq(sh) one == [j \in 1..n |-> <<1, j>>] IN
  CASE nd.op = "permute" -> [j \in 1..n |-> <<1, PermuteIdx(nd, sh)[j]>>]
    [] nd.op = "flatten" -> [j \in 1..n |-> <<1, FlattenIdx(nd, sh)[j]>>]
    [] nd.op = "concat" -> ConcatIdx(nd, shs)
    [] nd.op = "split" -> LET p == AxisPos(nd.axis, Len(sh)) m == n \div sh[p] IN
                          [j \in 1..n |-> <<1, GroupAlong(sh, p, (j - 1) % m)[1 + (j - 1) \div m]>>]
    [] OTHER -> one
Groups(nd, sh) ==
  IF nd.op = "maxpool" THEN PoolWins(nd, sh)
  ELSE LET p == AxisPos(nd.axis, Len(sh)) IN [j \in 1..(ProdSeq(sh) \div sh[p]) |-> GroupAlong(sh, p, j - 1)]
DotPairs(nd, shs) ==
  LET s1 == shs[1] s2 == shs[2] a == AxisPos(nd.a1, Len(s1)) b == AxisPos(nd.a2, Len(s2))
      n1 == ProdSeq(s1) \div s1[a] n2 == ProdSeq(s2) \div s2[b]
  IN [j \in 1..(n1 * n2) |->
        LET g1 == GroupAlong(s1, a, (j - 1) \div n2) g2 == GroupAlong(s2, b, (j - 1) % n2)
        IN [k \in 1..s1[a] |-> <<g1[k], g2[k]>>]]
(* everything about an operator which does not depend on the values *)
OpPlan(nd, shs) ==
  TLCEval(LET base == [nd |-> nd, shs |-> shs, outs |-> OutShapes(nd, shs)] IN
    CASE nd.op \in Selecting -> base @@ [sel |-> Select(nd, shs)]
      [] nd.op \in Grouping \cup {"sort"} -> base @@ [grp |-> Groups(nd, shs[1])]
      [] nd.op = "dot" -> base @@ [pairs |-> DotPairs(nd, shs)]
      [] nd.op \in Linear -> base @@ [rows |-> Rows(nd, shs[1]), bias |-> [j \in 1..NOuts(nd, shs) |-> BiasAt(nd, shs[1], j)]]
      [] OTHER -> base)

(* ---------------------------------------------------------------- values --------------------------------- *)
(* operands over the denominator den, output over OpDen *)
OpDen(pl, den) ==
  CASE pl.nd.op \in {"mul", "dot"} -> den ^ Len(pl.shs)
    [] pl.nd.op = "pow" -> den * den
    [] pl.nd.op = "avg" -> den * Len(pl.shs)
    [] pl.nd.op \in Linear -> den * Wden(pl.nd)
    [] OTHER -> den
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
OpVal(pl, ys, den) ==
  LET nd == pl.nd a == ys[1] k == Len(ys)
      ew(f(_)) == [j \in 1..Len(a) |-> f([q \in 1..k |-> ys[q][j]])]
  IN CASE nd.op \in Selecting -> [j \in 1..Len(pl.sel) |-> ys[pl.sel[j][1]][pl.sel[j][2]]]
       [] nd.op = "minus" -> ew(LAMBDA v : -v[1])
       [] nd.op = "relu" -> ew(LAMBDA v : Pos(v[1]))
       [] nd.op = "abs" -> ew(LAMBDA v : Abs(v[1]))
       [] nd.op = "pow" -> ew(LAMBDA v : v[1] * v[1])
       [] nd.op \in {"add", "avg"} -> ew(LAMBDA v : SumSeq(v))
       [] nd.op = "sub" -> ew(LAMBDA v : v[1] - v[2])
       [] nd.op = "max" -> ew(LAMBDA v : MaxSeq(v))
       [] nd.op = "min" -> ew(LAMBDA v : MinSeq(v))
       [] nd.op = "mul" -> ew(LAMBDA v : ProdSeq(v))
       [] nd.op \in {"rmax", "maxpool"} -> [j \in 1..Len(pl.grp) |-> MaxSeq([q \in 1..Len(pl.grp[j]) |-> a[pl.grp[j][q]]])]
       [] nd.op = "rmin" -> [j \in 1..Len(pl.grp) |-> MinSeq([q \in 1..Len(pl.grp[j]) |-> a[pl.grp[j][q]]])]
       [] nd.op = "sum" -> [j \in 1..Len(pl.grp) |-> SumSeq([q \in 1..Len(pl.grp[j]) |-> a[pl.grp[j][q]]])]
       [] nd.op = "sort" ->
            LET srt == [g \in 1..Len(pl.grp) |-> Sorted([q \in 1..Len(pl.grp[g]) |-> a[pl.grp[g][q]]])]
                at(j) == CHOOSE gq \in (1..Len(pl.grp)) \X (1..Len(pl.grp[1])) : pl.grp[gq[1]][gq[2]] = j
            IN [j \in 1..Len(a) |-> LET z == at(j) IN srt[z[1]][z[2]]]
       [] nd.op = "dot" -> [j \in 1..Len(pl.pairs) |-> SumSeq([q \in 1..Len(pl.pairs[j]) |-> a[pl.pairs[j][q][1]] * ys[2][pl.pairs[j][q][2]]])]
       [] nd.op \in Linear -> [j \in 1..Len(pl.rows) |-> SparseDot(pl.rows[j], a) + pl.bias[j] * den]

(* ---------------------------------------------------------------- interval arithmetic -------------------- *)
Monotone == Selecting \cup {"relu", "add", "avg", "sum", "rmax", "rmin", "maxpool"}
HasItv(nd) == nd.op \in Monotone \cup Linear \cup {"minus", "sub"}
OpHi(pl, us, ls, den) ==
  CASE pl.nd.op \in Monotone -> OpVal(pl, us, den)
    [] pl.nd.op = "minus" -> OpVal(pl, ls, den)
    [] pl.nd.op = "sub" -> OpVal(pl, <<us[1], ls[2]>>, den)
    [] pl.nd.op \in Linear -> [j \in 1..Len(pl.rows) |-> SparseHi(pl.rows[j], [lo |-> ls[1], hi |-> us[1]]) + pl.bias[j] * den]
OpLo(pl, us, ls, den) == OpHi(pl, ls, us, den)
=============================================================================
