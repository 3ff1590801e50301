---------------------------- MODULE TraceBounds ----------------------------
(* Validation of recorded conversions.  A trace is a sequence of cases; a case is a network with input domains *)
(* and points of these domains, what the original Keras network returned on the points, and the runs: for each *)
(* conversion, the bounds which the converted network returned, as integers over the scale S of the run.       *)
(* The specification walks the trace (case c, run r; r = 0 is the case itself), computes the exact values of   *)
(* the network once per case, and names every clause which a run violates.                                     *)
EXTENDS NetSem, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Clauses == LET s == IOEnv.CLAUSES IN s      \* a word list such as "+ConstSound+AffSound+"
Asked(cl) == \E i \in 1..(Len(Clauses) - Len(cl) - 1) : SubSeq(Clauses, i, i + Len(cl) + 1) = "+" \o cl \o "+"

VARIABLES c, r, t, nfail

(* ----------------------------------------------------------------- expected forms ------------------------ *)
ExpIbp(run) == CASE run.form \in {"TT", "TF"} -> TRUE [] run.form = "FT" -> FALSE [] OTHER -> run.m \notin {"forward-affine", "crown-forward-affine"}
ExpAff(run) == CASE run.form \in {"TT", "FT"} -> TRUE [] run.form = "TF" -> FALSE
                 [] OTHER -> run.m \in {"forward-affine", "forward-hybrid", "crown-forward-affine", "crown-forward-hybrid"}
UsesAffine(m) == m \notin {"forward-ibp"}
(* methods propagating affine bounds; the others return constant functions when asked for affine bounds *)
GivesAffine(m) == m \notin {"forward-ibp", "crown", "crown-forward-ibp"}
MulDiv(y, S, d) == (y \div d) * S + ((y % d) * S) \div d
IsPL(case) == case.pl

(* ----------------------------------------------------------------- truth of a case ----------------------- *)
Truth(case) ==
  IF case.pl
  THEN LET plan == Plan(case.net, case.xden)
           y == [b \in 1..Len(case.pts) |-> [k \in 1..Len(case.pts[b]) |-> TLCEval(Eval(plan, case.pts[b][k]))]]
           iv == [b \in 1..Len(case.boxes) |-> TLCEval(AllItvs(plan, case.boxes[b]))]
       IN TLCEval([y |-> y, den |-> plan.den,
           mag |-> [b \in 1..Len(case.boxes) |-> ItvMag(plan, iv[b])],
           itv |-> [b \in 1..Len(case.boxes) |-> iv[b][Len(iv[b])]],
           aff |-> [b \in 1..Len(case.boxes) |-> AffineOn(plan, case.boxes[b])]])
  ELSE [y |-> case.ky, den |-> case.kS,
        mag |-> [b \in 1..Len(case.boxes) |-> CeilDiv(MaxSeq([k \in 1..Len(case.ky[b]) |-> MaxAbs(case.ky[b][k])]), case.kS) + case.nlmag],
        itv |-> <<>>, aff |-> [b \in 1..Len(case.boxes) |-> FALSE]]

Big == 1073741823
(* acceptable rounding error in units of 1/S: 2e-5 relative to the magnitudes met, plus quantization *)
Tol(S, mag) == (Mn(S * 2, (Big \div (mag + 1))) * (mag + 1)) \div 100000 + 4
(* value of output o at point k of box b, over S (rounded down) *)
Y(tr, S, b, k, o) == MulDiv(tr.y[b][k][o], S, tr.den)

Ymax(tr, S, b, o) == MaxSeq([k \in 1..Len(tr.y[b]) |-> Y(tr, S, b, k, o)])
Ymin(tr, S, b, o) == MinSeq([k \in 1..Len(tr.y[b]) |-> Y(tr, S, b, k, o)])

(* xden times the affine function (w, d) at x, over S *)
AffAt(w, d, x, o, xden) == FoldLeftDomain(LAMBDA acc, i : acc + w[i][o] * x[i], 0, x) + d[o] * xden
SumAbsX(x) == SumAbs(x)
ATol(S, mag, x, xden) == Tol(S, mag) * xden + SumAbs(x)

(* ------------------------------------------------------------------------ clauses ------------------------ *)
NOut(case) == Len(case.ky[1][1])
Fail(case, run, cl, b, o) ==
  PrintT("FAIL " \o cl \o " case=" \o case.id \o " run=" \o ToString(run) \o " box=" \o ToString(b) \o " out=" \o ToString(o))

Check(case, run, cl, b, o, ok) == IF ~Asked(cl) \/ ok THEN 0 ELSE IF Fail(case, [m |-> run.m, slope |-> run.slope, form |-> run.form, be |-> case.backend], cl, b, o) THEN 1 ELSE 1

OverAll(case, f(_, _)) ==
  SumSeq([b \in 1..Len(case.boxes) |-> SumSeq([o \in 1..NOut(case) |-> f(b, o)])])

ConstSound(case, run, tr) ==
  IF ~run.ibp \/ ~Asked("ConstSound") THEN 0
  ELSE OverAll(case, LAMBDA b, o :
         LET e == Tol(run.S, tr.mag[b]) IN
         Check(case, run, "ConstSound", b, o,
           /\ run.u[b][o] >= Ymax(tr, run.S, b, o) - e
           /\ run.l[b][o] <= Ymin(tr, run.S, b, o) + e))
AffSound(case, run, tr) ==
  IF ~run.aff \/ ~Asked("AffSound") THEN 0
  ELSE OverAll(case, LAMBDA b, o :
         Check(case, run, "AffSound", b, o,
           \A k \in 1..Len(case.pts[b]) :
             LET x == case.pts[b][k]
                 e == ATol(run.S, tr.mag[b], x, case.xden)
                 y == Y(tr, run.S, b, k, o) * case.xden
             IN /\ AffAt(run.wu[b], run.bu[b], x, o, case.xden) >= y - e
                /\ AffAt(run.wl[b], run.bl[b], x, o, case.xden) <= y + e))
Ordered(case, run, tr) ==
  IF ~Asked("Ordered") THEN 0
  ELSE OverAll(case, LAMBDA b, o :
         Check(case, run, "Ordered", b, o,
           /\ run.ibp => run.l[b][o] <= run.u[b][o] + Tol(run.S, tr.mag[b])
           /\ run.aff => \A k \in 1..Len(case.pts[b]) :
                LET x == case.pts[b][k] IN
                AffAt(run.wl[b], run.bl[b], x, o, case.xden)
                  <= AffAt(run.wu[b], run.bu[b], x, o, case.xden) + ATol(run.S, tr.mag[b], x, case.xden)))
(* extrema of an affine function over the domain, times xden, over S *)
SupAff(case, b, w, d, o) ==
  IF case.dom = "box"
  THEN d[o] * case.xden + FoldLeftDomain(LAMBDA acc, i : acc + (IF w[i][o] >= 0 THEN w[i][o] * case.boxes[b].hi[i] ELSE w[i][o] * case.boxes[b].lo[i]), 0, case.boxes[b].lo)
  ELSE LET ctr == case.centers[b] n == Len(ctr)
           base == d[o] * case.xden + FoldLeftDomain(LAMBDA acc, i : acc + w[i][o] * ctr[i], 0, ctr)
       IN CASE case.p = "inf" -> base + case.eps * FoldLeftDomain(LAMBDA acc, i : acc + Abs(w[i][o]), 0, ctr)
            [] case.p = "1" -> base + case.eps * MaxSeq([i \in 1..n |-> Abs(w[i][o])])
            [] OTHER -> \* an upper estimate of the euclidean norm
                 base + case.eps * FoldLeftDomain(LAMBDA acc, i : acc + Abs(w[i][o]), 0, ctr)
NegW(w) == [i \in 1..Len(w) |-> [o \in 1..Len(w[i]) |-> -w[i][o]]]
(* the constant bounds are never looser than the extrema over the domain of the affine bounds returned with them *)
ConstVsAffine(case, run, tr) ==
  IF ~(run.ibp /\ run.aff) \/ ~Asked("ConstVsAffine") THEN 0
  ELSE OverAll(case, LAMBDA b, o :
         LET e == ATol(run.S, tr.mag[b], Append(case.boxes[b].lo, MaxAbs(case.boxes[b].hi)), case.xden) IN
         Check(case, run, "ConstVsAffine", b, o,
           /\ run.u[b][o] * case.xden <= SupAff(case, b, run.wu[b], run.bu[b], o) + e
           /\ -(run.l[b][o] * case.xden) <= SupAff(case, b, NegW(run.wl[b]), [q \in 1..Len(run.bl[b]) |-> -run.bl[b][q]], o) + e))
(* exactness: the sample points contain the extreme points of a box (its corners) *)
IsPoint(case, b) == case.boxes[b].lo = case.boxes[b].hi
\* (the relaxation of softplus from below is that of relu: it is loose at every point, by design)
\* (crown and crown-forward-ibp only know the bounding box of the domain)
ExtremaSampled(case) == case.dom = "box" \/ case.p # "2"
ExactMethod(case, m) == IF case.dom = "box" \/ case.p = "inf" THEN UsesAffine(m) ELSE GivesAffine(m)
ExactHere(case, run, tr, b) == (tr.aff[b] /\ ExactMethod(case, run.m)) \/ (IsPoint(case, b) /\ ~HasFn(case.net, {"softplus"}))
Exact(case, run, tr) ==
  IF ~Asked("Exact") THEN 0
  ELSE OverAll(case, LAMBDA b, o :
         LET e == Tol(run.S, tr.mag[b]) IN
         Check(case, run, "Exact", b, o,
           ExactHere(case, run, tr, b) =>
             /\ run.ibp /\ ExtremaSampled(case) =>
                  /\ Abs(run.u[b][o] - Ymax(tr, run.S, b, o)) <= e
                  /\ Abs(run.l[b][o] - Ymin(tr, run.S, b, o)) <= e
             /\ run.aff /\ (GivesAffine(run.m) \/ IsPoint(case, b)) => \A k \in 1..Len(case.pts[b]) :
                  LET x == case.pts[b][k]
                      ea == ATol(run.S, tr.mag[b], x, case.xden)
                      y == Y(tr, run.S, b, k, o) * case.xden
                  IN /\ Abs(AffAt(run.wu[b], run.bu[b], x, o, case.xden) - y) <= ea
                     /\ Abs(AffAt(run.wl[b], run.bl[b], x, o, case.xden) - y) <= ea))
(* the exact extrema of an affine network over a euclidean ball: the centre value plus or minus the norm of the  *)
(* vector of the finite differences along the axes (the first sample points of a ball lie on the axes)           *)
Exact2(case, run, tr) ==
  IF ~Asked("Exact2") \/ case.dom = "box" \/ ~run.ibp \/ ~GivesAffine(run.m) THEN 0
  ELSE IF case.p # "2" \/ case.eps = 0 THEN 0
  ELSE OverAll(case, LAMBDA b, o :
         Check(case, run, "Exact2", b, o, ~tr.aff[b] \/
         LET n == Len(case.centers[b])
             y(k) == Y(tr, run.S, b, k, o)
             d == [i \in 1..n |-> (y(2 * i) - y(2 * i - 1)) \div 2]
             k == 1 + (MaxAbs(d) \div 8192)
             norm == k * ISqrt(SumSeq([i \in 1..n |-> (d[i] \div k) * (d[i] \div k)]))
             mid == (y(1) + y(2)) \div 2
             e == Tol(run.S, tr.mag[b]) + k * (n + 3)
         IN Abs(run.u[b][o] - (mid + norm)) <= e /\ Abs(run.l[b][o] - (mid - norm)) <= e))
(* the l-infinity ball and the box with the same corners: the run which describes the domain as a box gives the  *)
(* bounds of the run before it                                                                                   *)
LinfBox(case, run, prev, tr) ==
  IF ~Asked("LinfBox") \/ Get(run, "as", "") # "box" \/ ~run.ibp THEN 0
  ELSE IF prev.status # "ok" \/ ~prev.finite THEN 0
  ELSE OverAll(case, LAMBDA b, o :
         LET e == Tol(run.S, tr.mag[b]) + 2 IN
         Check(case, run, "LinfBox", b, o,
           /\ Abs(run.u[b][o] - MulDiv(prev.u[b][o], run.S, prev.S)) <= e
           /\ Abs(run.l[b][o] - MulDiv(prev.l[b][o], run.S, prev.S)) <= e))
(* interval-only propagation is interval arithmetic (products, bounded with the inequalities of McCormick, and *)
(* extrema of two tensors, computed through a relu of                                                        *)
(* their difference, are left out: sound but looser); the hybrid method is never looser than interval-only   *)
ItvAt(tr, S, v) == MulDiv(v, S, tr.den)
IntervalExact(case, run, tr) ==
  IF ~(run.ibp /\ case.pl /\ run.m = "forward-ibp" /\ case.dom = "box" /\ ~HasOp(case.net, {"max", "min", "mul", "dot"})) \/ ~Asked("IntervalExact") THEN 0
  ELSE OverAll(case, LAMBDA b, o :
         LET e == Tol(run.S, tr.mag[b]) IN
         Check(case, run, "IntervalExact", b, o,
           /\ Abs(run.u[b][o] - ItvAt(tr, run.S, tr.itv[b].hi[o])) <= e
           /\ Abs(run.l[b][o] - ItvAt(tr, run.S, tr.itv[b].lo[o])) <= e))
(* the runs of the case with the interval-only method *)
IbpRuns(case) == {q \in 1..Len(case.runs) : case.runs[q].m = "forward-ibp" /\ case.runs[q].status = "ok" /\ case.runs[q].finite /\ case.runs[q].ibp}
HybridTighter(case, run, tr) ==
  IF ~(run.ibp /\ run.m = "forward-hybrid") \/ ~Asked("HybridTighter") THEN 0
  ELSE OverAll(case, LAMBDA b, o :
         LET e == Tol(run.S, tr.mag[b]) IN
         Check(case, run, "HybridTighter", b, o,
           \A q \in IbpRuns(case) :
             LET ref == case.runs[q] IN
             /\ run.u[b][o] <= MulDiv(ref.u[b][o], run.S, ref.S) + e
             /\ run.l[b][o] >= MulDiv(ref.l[b][o], run.S, ref.S) - e))
(* inclusion monotonicity of interval propagation: a box included in another never gets looser bounds *)
BoxIn(a, b) == \A i \in 1..Len(a.lo) : a.lo[i] >= b.lo[i] /\ a.hi[i] <= b.hi[i]
Monotone(case, run, tr) ==
  IF ~(run.ibp /\ run.m = "forward-ibp" /\ case.dom = "box" /\ ~HasOp(case.net, {"mul", "dot"})) \/ ~Asked("Monotone") THEN 0
  ELSE OverAll(case, LAMBDA b, o :
         LET e == Tol(run.S, tr.mag[b]) IN
         Check(case, run, "Monotone", b, o,
           \A a \in 1..Len(case.boxes) : BoxIn(case.boxes[a], case.boxes[b]) =>
             run.u[a][o] <= run.u[b][o] + e /\ run.l[a][o] >= run.l[b][o] - e))
(* forms: number, order (through the clauses above) and shapes of the outputs *)
ExpShapes(case, run) ==
  LET nb == Len(case.boxes) no == NOut(case) ni == case.net.nin
      x == IF case.dom = "box" \/ Get(run, "as", "") = "box" THEN <<nb, 2, ni>> ELSE <<nb, ni>>
      w == <<nb, ni, no>> v == <<nb, no>>
  IN CASE ExpIbp(run) /\ ExpAff(run) -> <<x, v, w, v, v, w, v>>
       [] ExpIbp(run) -> <<v, v>>
       [] OTHER -> <<x, w, v, w, v>>
Forms(case, run) ==
  Check(case, run, "Forms", 0, 0, run.status = "ok" => /\ run.shapes = ExpShapes(case, run)
                                                       /\ run.flags = <<ExpIbp(run), ExpAff(run)>>
                                                       /\ run.echo /\ run.declared)
Finite(case, run) == Check(case, run, "Finite", 0, 0, run.status = "ok" => run.finite)
Converts(case, run) == Check(case, run, "Converts", 0, 0, run.status = "ok")

(* the recorded outputs of the original network are those of the specification, before and after the conversions *)
KerasMatches(case, tr) ==
  /\ case.pl => \A b \in 1..Len(case.pts) : \A k \in 1..Len(case.pts[b]) : \A o \in 1..NOut(case) :
       Abs(case.ky[b][k][o] - Y(tr, case.kS, b, k, o)) <= Tol(case.kS, tr.mag[b])
OrigCheck(case, tr) ==
  LET ok1 == KerasMatches(case, tr)
      run0 == [m |-> "-", slope |-> "-", form |-> "-"]
  IN Check(case, run0, "Semantics", 0, 0, case.softmax \/ ok1) + Check(case, run0, "OrigUnchanged", 0, 0, case.unchanged)

RunCheck(case, q, tr) ==
  LET run == case.runs[q] IN
  Converts(case, run)
  + (IF run.status # "ok" THEN 0
     ELSE Forms(case, run) + Finite(case, run)
          + (IF ~run.finite \/ run.shapes # ExpShapes(case, run) THEN 0
             ELSE ConstSound(case, run, tr) + AffSound(case, run, tr) + Ordered(case, run, tr) + ConstVsAffine(case, run, tr)
                  + Exact(case, run, tr) + Exact2(case, run, tr) + LinfBox(case, run, IF q = 1 THEN run ELSE case.runs[q - 1], tr) + IntervalExact(case, run, tr) + HybridTighter(case, run, tr) + Monotone(case, run, tr)))

Init == c = 1 /\ r = 0 /\ nfail = 0 /\ t = IF Len(Trace) = 0 THEN <<>> ELSE Truth(Trace[1])
NextRun == /\ c <= Len(Trace) /\ r < Len(Trace[c].runs)
           /\ r' = r + 1 /\ UNCHANGED <<c, t>>
           /\ nfail' = nfail + RunCheck(Trace[c], r + 1, t)
NextCase == /\ c <= Len(Trace) /\ r = Len(Trace[c].runs)
            /\ c' = c + 1 /\ r' = 0
            /\ nfail' = nfail + OrigCheck(Trace[c], t)
            /\ t' = IF c < Len(Trace) THEN Truth(Trace[c + 1]) ELSE <<>>
Next == NextRun \/ NextCase
Spec == Init /\ [][Next]_<<c, r, t, nfail>>
(* the whole trace was read: one state per case and per run *)
Expected == 1 + SumSeq([i \in 1..Len(Trace) |-> 1 + Len(Trace[i].runs)])
AllRead == /\ PrintT("READ " \o ToString(TLCGet("stats").diameter) \o " OF " \o ToString(Expected))
           /\ TLCGet("stats").diameter = Expected
=============================================================================
