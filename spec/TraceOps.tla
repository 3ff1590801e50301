------------------------------ MODULE TraceOps ------------------------------
(* Validation of recorded operators, layers and backward layers (see OpSem for their semantics).               *)
EXTENDS OpSem, Json, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
Clauses == IOEnv.CLAUSES
Asked(cl) == \E i \in 1..(Len(Clauses) - Len(cl) - 1) : SubSeq(Clauses, i, i + Len(cl) + 1) = "+" \o cl \o "+"
VARIABLES c, r, t

MulDiv(y, S, d) == (y \div d) * S + ((y % d) * S) \div d
Big == 1073741823
Tol(S, mag) == (Mn(S * 2, (Big \div (mag + 1))) * (mag + 1)) \div 100000 + 4

(* ------------------------------------------------------------- truth of a case --------------------------- *)
ValAt(smp, x, xden) == [j \in 1..Len(smp.c) |-> FoldLeftDomain(LAMBDA acc, i : acc + smp.A[i][j] * x[i], smp.c[j] * xden, x)]
MagOf(case, pl) ==      \* magnitude met while computing, from the bounds of the operands
  LET m == CeilDiv(MaxSeq([q \in 1..Len(case.ops) |-> MaxSeq([b \in 1..Len(case.ops[q]) |->
              Mx(Mx(MaxAbs(case.ops[q][b].u), MaxAbs(case.ops[q][b].l)), Mx(MaxAbs(case.ops[q][b].bu), MaxAbs(case.ops[q][b].bl)))])]), case.oden) + 1
      n == ProdSeq(case.shs[1])
  IN CASE case.nd.op \in {"mul", "dot"} -> 2 * (m ^ Len(case.ops)) * (IF case.nd.op = "dot" THEN n ELSE 1)
       [] case.nd.op = "pow" -> 2 * m * m
       [] case.nd.op \in Linear -> MaxSeq([j \in 1..Len(pl.rows) |-> CeilDiv(m * SumAbs([q \in 1..Len(pl.rows[j]) |-> pl.rows[j][q][2]]) + Abs(pl.bias[j]), Wden(case.nd))])
       [] case.nd.op \in {"sum", "add", "avg", "sub", "max", "min", "sort", "rmax", "rmin", "maxpool"} -> m * 4
       [] OTHER -> m
Truth(case) ==
  LET pl == OpPlan(case.nd, case.shs)
      ys == TLCEval([q \in 1..Len(case.ops) |-> [b \in 1..Len(case.pts) |-> [k \in 1..Len(case.pts[b]) |-> ValAt(case.ops[q][b], case.pts[b][k], case.xden)]]])
      fn == case.nd.op = "fn"
      fnmag == IF fn THEN CeilDiv(MaxSeq([b \in 1..Len(case.ky) |-> MaxSeq([k \in 1..Len(case.ky[b]) |-> MaxAbs(case.ky[b][k])])]), case.kS) ELSE 0
  IN TLCEval([pl |-> pl, ys |-> ys, den |-> IF fn THEN case.kS ELSE OpDen(pl, case.xden), mag |-> MagOf(case, pl) + 8 * fnmag, n |-> NOuts(case.nd, case.shs),
      v |-> IF fn THEN case.ky
            ELSE [b \in 1..Len(case.pts) |-> [k \in 1..Len(case.pts[b]) |-> OpVal(pl, [q \in 1..Len(case.ops) |-> ys[q][b][k]], case.xden)]]])
V(tr, S, b, k, o) == MulDiv(tr.v[b][k][o], S, tr.den)

(* ------------------------------------------------------------- clauses ----------------------------------- *)
Fail(case, run, cl, note) ==
  PrintT("FAIL " \o cl \o " case=" \o case.id \o " be=" \o case.backend \o " op=" \o ToString(case.nd) \o " shapes=" \o ToString(case.shs)
         \o " mode=" \o run.mode \o " slope=" \o run.slope \o " dom=" \o case.dom \o " at=" \o ToString(note))
Check(case, run, cl, note, ok) == ~Asked(cl) \/ ok \/ Fail(case, run, cl, note)
Ibp(run) == run.mode # "affine"
Aff(run) == run.mode # "ibp"
AffAt(w, d, x, o, xden) == FoldLeftDomain(LAMBDA acc, i : acc + w[i][o] * x[i], 0, x) + d[o] * xden

Shape(case, run) ==
  LET os == OutShapes(case.nd, case.shs) n == Len(case.boxes)
      f(q) == LET s == run.shapes[q] IN
              /\ Ibp(run) => s.u = <<n>> \o os[q] /\ s.l = <<n>> \o os[q]
              /\ Aff(run) => s.wu = <<n, case.nx>> \o os[q] /\ s.wl = <<n, case.nx>> \o os[q] /\ s.bu = <<n>> \o os[q] /\ s.bl = <<n>> \o os[q]
  IN Len(run.shapes) = Len(os) /\ \A q \in 1..Len(os) : f(q)
Sound(case, run, tr) ==
  LET e == Tol(run.S, tr.mag) IN
  \A b \in 1..Len(case.boxes) : \A o \in 1..tr.n :
    /\ Ibp(run) => Check(case, run, "OpConst", <<b, o>>, \A k \in 1..Len(case.pts[b]) :
                          run.u[b][o] >= V(tr, run.S, b, k, o) - e /\ run.l[b][o] <= V(tr, run.S, b, k, o) + e)
    /\ Aff(run) => Check(case, run, "OpAffine", <<b, o>>, \A k \in 1..Len(case.pts[b]) :
                          LET x == case.pts[b][k] y == V(tr, run.S, b, k, o) * case.xden ea == e * case.xden + SumAbs(x) IN
                          /\ AffAt(run.wu[b], run.bu[b], x, o, case.xden) >= y - ea
                          /\ AffAt(run.wl[b], run.bl[b], x, o, case.xden) <= y + ea)
(* affine operators of exact operands are exact *)
Exact(case, run, tr) ==
  LET e == Tol(run.S, tr.mag) IN
  (Asked("OpExact") /\ case.nd.op \in AffineOps /\ ~case.slack) =>
  \A b \in 1..Len(case.boxes) : \A o \in 1..tr.n :
    /\ Aff(run) => Check(case, run, "OpExact", <<b, o>>, \A k \in 1..Len(case.pts[b]) :
                          LET x == case.pts[b][k] y == V(tr, run.S, b, k, o) * case.xden ea == e * case.xden + SumAbs(x) IN
                          /\ AffAt(run.wu[b], run.bu[b], x, o, case.xden) <= y + ea
                          /\ AffAt(run.wl[b], run.bl[b], x, o, case.xden) >= y - ea)
(* the constant bounds computed from constant bounds only are those of interval arithmetic, *)
(* and for affine operators those computed with affine bounds too are never looser (the maximum along an axis  *)
(* of hybrid bounds goes through a relaxation)                                                                *)
Interval(case, run, tr) ==
  (Asked("OpInterval") /\ Ibp(run) /\ HasItv(case.nd) /\ (run.mode = "ibp" \/ case.nd.op \in AffineOps \cup {"relu"})) =>
  \A b \in 1..Len(case.boxes) :
    LET us == [q \in 1..Len(case.ops) |-> case.ops[q][b].u] ls == [q \in 1..Len(case.ops) |-> case.ops[q][b].l]
        hi == TLCEval(OpHi(tr.pl, us, ls, case.oden)) lo == TLCEval(OpLo(tr.pl, us, ls, case.oden))
        d == OpDen(tr.pl, case.oden) e == Tol(run.S, tr.mag)
    IN \A o \in 1..tr.n :
         Check(case, run, "OpInterval", <<b, o>>,
           /\ run.u[b][o] <= MulDiv(hi[o], run.S, d) + e /\ run.l[b][o] >= MulDiv(lo[o], run.S, d) - e
           /\ run.mode = "ibp" => run.u[b][o] >= MulDiv(hi[o], run.S, d) - e /\ run.l[b][o] <= MulDiv(lo[o], run.S, d) + e)
(* backward layers: affine functions of the value of each operand, each a bound of the output *)
BackOk(case, run, tr) ==
  (case.back /\ (Asked("BackRuns") \/ Asked("BackSound") \/ Asked("BackShape") \/ Asked("BackExact"))) =>
  /\ Check(case, run, "BackRuns", <<Len(run.back)>>, Len(run.back) = Len(case.ops))
  /\ \A q \in 1..Len(run.back) :
       LET bk == run.back[q]
           ok == bk.status = "ok"
           ni == ProdSeq(case.shs[q]) n == Len(case.boxes)
           bc(m) == m \in {1, n}      \* the same for all samples, or one by sample
           shp == /\ ok
                  /\ Len(bk.shapes.wu) = 3 /\ Len(bk.shapes.wl) = 3 /\ Len(bk.shapes.bu) = 2 /\ Len(bk.shapes.bl) = 2
                  /\ bc(bk.shapes.wu[1]) /\ bc(bk.shapes.wl[1]) /\ bc(bk.shapes.bu[1]) /\ bc(bk.shapes.bl[1])
                  /\ SubSeq(bk.shapes.wu, 2, 3) = <<ni, tr.n>> /\ SubSeq(bk.shapes.wl, 2, 3) = <<ni, tr.n>>
                  /\ bk.shapes.bu[2] = tr.n /\ bk.shapes.bl[2] = tr.n
           at(f, b) == IF Len(f) = 1 THEN f[1] ELSE f[b]
           e == Tol(bk.S, tr.mag) * case.xden
       IN /\ Check(case, run, "BackRuns", <<q, bk.status>>, ok /\ bk.finite)
          /\ ok => Check(case, run, "BackShape", <<q, bk.shapes>>, shp)
          /\ (ok /\ shp /\ bk.finite) =>
               \A b \in 1..n : \A o \in 1..tr.n :
                 LET wu == at(bk.wu, b) bu == at(bk.bu, b) wl == at(bk.wl, b) bl == at(bk.bl, b) IN
                 /\ Check(case, run, "BackSound", <<q, b, o>>, \A k \in 1..Len(case.pts[b]) :
                      LET y == tr.ys[q][b][k] v == V(tr, bk.S, b, k, o) * case.xden ea == e + SumAbs(y) IN
                      /\ AffAt(wu, bu, y, o, case.xden) >= v - ea
                      /\ AffAt(wl, bl, y, o, case.xden) <= v + ea)
                 /\ Check(case, run, "BackExact", <<q, b, o>>, (case.nd.op \in AffineOps /\ Len(case.ops) = 1) => \A k \in 1..Len(case.pts[b]) :
                      LET y == tr.ys[q][b][k] v == V(tr, bk.S, b, k, o) * case.xden ea == e + SumAbs(y) IN
                      /\ AffAt(wu, bu, y, o, case.xden) <= v + ea
                      /\ AffAt(wl, bl, y, o, case.xden) >= v - ea)
RunOk(case, run, tr) ==
  IF run.status # "ok" THEN Check(case, run, "OpRuns", run.status, FALSE)
  ELSE IF ~run.finite THEN Check(case, run, "OpRuns", "not finite", FALSE)
  ELSE LET s == Shape(case, run) IN
       /\ Check(case, run, "OpShape", run.shapes, s)
       /\ s => Sound(case, run, tr) /\ Exact(case, run, tr) /\ Interval(case, run, tr)
       /\ BackOk(case, run, tr)
(* the layer of Keras computes the operator of the specification *)
Semantics(case, tr) ==
  Check(case, case.runs[1], "Semantics", 0,
    case.ky = <<>> \/ case.nd.op = "fn" \/
    \A b \in 1..Len(case.pts) : \A k \in 1..Len(case.pts[b]) : \A o \in 1..tr.n : Abs(case.ky[b][k][o] - V(tr, case.kS, b, k, o)) <= Tol(case.kS, tr.mag))

Init == c = 1 /\ r = 0 /\ t = IF Len(Trace) = 0 THEN <<>> ELSE Truth(Trace[1])
NextRun == /\ c <= Len(Trace) /\ r < Len(Trace[c].runs)
           /\ r' = r + 1 /\ UNCHANGED <<c, t>>
           /\ RunOk(Trace[c], Trace[c].runs[r + 1], t) = TRUE
NextCase == /\ c <= Len(Trace) /\ r = Len(Trace[c].runs)
            /\ Semantics(Trace[c], t) = TRUE
            /\ c' = c + 1 /\ r' = 0
            /\ t' = IF c < Len(Trace) THEN Truth(Trace[c + 1]) ELSE <<>>
Next == NextRun \/ NextCase
Spec == Init /\ [][Next]_<<c, r, t>>
Expected == 1 + SumSeq([i \in 1..Len(Trace) |-> 1 + Len(Trace[i].runs)])
AllRead == /\ PrintT("READ " \o ToString(TLCGet("stats").diameter) \o " OF " \o ToString(Expected))
           /\ TLCGet("stats").diameter = Expected
=============================================================================
