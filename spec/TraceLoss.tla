----------------------------- MODULE TraceLoss -----------------------------
(* Validation of the certified losses.  For each input of a batch, a loss is an upper bound of a quantity over  *)
(* the domain: the excess of an output over its reference, the margin of a class over the label, the            *)
(* cross-entropy of each label, the share of the domain which is not certified.  A trace is a sequence of cases  *)
(* (a classifier, a domain, reference values and labels) with the values of every loss for each conversion.     *)
EXTENDS NetSem, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Clauses == IOEnv.CLAUSES
Asked(cl) == \E i \in 1..(Len(Clauses) - Len(cl) - 1) : SubSeq(Clauses, i, i + Len(cl) + 1) = "+" \o cl \o "+"

VARIABLES c, r, t

ExpIbp(run) == CASE run.form \in {"TT", "TF"} -> TRUE [] run.form = "FT" -> FALSE [] OTHER -> run.m \notin {"forward-affine", "crown-forward-affine"}
ExpAff(run) == CASE run.form \in {"TT", "FT"} -> TRUE [] run.form = "TF" -> FALSE
                 [] OTHER -> run.m \in {"forward-affine", "forward-hybrid", "crown-forward-affine", "crown-forward-hybrid"}
GivesAffine(m) == m \notin {"forward-ibp", "crown", "crown-forward-ibp"}
MulDiv(y, S, d) == (y \div d) * S + ((y % d) * S) \div d
Big == 1073741823
Tol(S, mag) == (Mn(S * 2, (Big \div (mag + 1))) * (mag + 1)) \div 100000 + 4

Truth(case) ==
  LET plan == Plan(case.net, case.xden)
      iv == [b \in 1..Len(case.boxes) |-> TLCEval(AllItvs(plan, case.boxes[b]))]
  IN TLCEval([y |-> [b \in 1..Len(case.pts) |-> [k \in 1..Len(case.pts[b]) |-> TLCEval(Eval(plan, case.pts[b][k]))]], den |-> plan.den,
              mag |-> [b \in 1..Len(case.boxes) |-> ItvMag(plan, iv[b])],
              logit |-> [b \in 1..Len(case.boxes) |-> LET v == iv[b][Len(iv[b])] IN Mx(MaxAbs(v.lo), MaxAbs(v.hi)) \div plan.den],
              aff |-> [b \in 1..Len(case.boxes) |-> AffineOn(plan, case.boxes[b])]])
Y(tr, S, b, k, o) == MulDiv(tr.y[b][k][o], S, tr.den)
NOut(case) == Len(case.refs[1])
Pts(case, b) == 1..Len(case.pts[b])
MaxSet(Z) == CHOOSE m \in Z : \A e \in Z : e <= m

Fail(case, run, cl, note) ==
  PrintT("FAIL " \o cl \o " case=" \o case.id \o " be=" \o case.backend \o " dom=" \o (IF case.dom = "box" THEN "box" ELSE "ball" \o case.p) \o " run="
         \o (IF "m" \in DOMAIN run THEN ToString([m |-> run.m, slope |-> run.slope, form |-> run.form]) ELSE "-") \o " at=" \o ToString(note)
         \o (IF "err" \in DOMAIN run THEN " err=" \o run.err ELSE ""))
Check(case, run, cl, note, ok) == ~Asked(cl) \/ ok \/ Fail(case, run, cl, note)

(* ---------------------------------------------------------- the quantities bounded by the losses ------------ *)
Excess(case, tr, S, b, sign) ==        \* largest excess of an output over (under) its reference
  MaxSet({sign * (Y(tr, S, b, k, o) - MulDiv(case.refs[b][o], S, case.xden)) : k \in Pts(case, b), o \in 1..NOut(case)})
MarginAt(case, tr, S, b, k, i) == MaxSet({Y(tr, S, b, k, o) - Y(tr, S, b, k, i) : o \in (1..NOut(case)) \ {i}})
Margin(case, tr, S, b, i) == MaxSet({MarginAt(case, tr, S, b, k, i) : k \in Pts(case, b)})
ProbMargin(case, b, i) == MaxSet({case.prob[b][k][o] - case.prob[b][k][i] : k \in Pts(case, b), o \in (1..NOut(case)) \ {i}})
CrossEntropy(case, S, b, i) == MaxSet({MulDiv(case.lse[b][k] - case.ky[b][k][i], S, case.kS) : k \in Pts(case, b)})

(* ---------------------------------------------------------- exactness --------------------------------------- *)
IsPoint(case, b) == case.boxes[b].lo = case.boxes[b].hi
ExactMethod(case, m) == IF case.dom = "box" \/ case.p = "inf" THEN m # "forward-ibp" ELSE GivesAffine(m)
ExactOut(case, run, tr, b) == IsPoint(case, b) \/ (tr.aff[b] /\ ExactMethod(case, run.m) /\ (case.dom = "box" \/ case.p # "2"))
ExactMargin(case, run, tr, b) == IsPoint(case, b) \/ (ExactOut(case, run, tr, b) /\ GivesAffine(run.m) /\ ExpAff(run))

(* ---------------------------------------------------------- the radius of robustness ------------------------ *)
(* scaled distance of a point to the centre of the box, over 2^12 (rounded up): 0 at the centre, 1 on the boundary *)
Dist(box, x) ==
  MaxSeq([i \in 1..Len(x) |-> IF box.hi[i] = box.lo[i] THEN 0
                              ELSE CeilDiv(Abs(2 * x[i] - box.lo[i] - box.hi[i]) * 4096, box.hi[i] - box.lo[i])])
RadiusSound(case, run, tr, b, i) ==      \* a point which is not of class i at distance d: the radius is at most d
  \A k \in Pts(case, b) :
    MarginAt(case, tr, run.S, b, k, i) > 2 * Tol(run.S, tr.mag[b]) + 2
    => run.rad[b][i] >= MulDiv(4096 - Dist(case.boxes[b], case.pts[b][k]), run.S, 4096) - (run.S \div 1000 + 4)
(* the network is affine on the box: the radius is that of the closest point which is not of class i, up to twice the box *)
Centre(case, b) == {k \in Pts(case, b) : \A i \in 1..case.net.nin : 2 * case.pts[b][k][i] = case.boxes[b].lo[i] + case.boxes[b].hi[i]}
RadiusExact(case, run, tr, b, i) ==
  \A kc \in Centre(case, b) :
    \/ run.rad[b][i] <= -run.S + run.S \div 1000 + 4
    \/ \E o \in (1..NOut(case)) \ {i} :
         LET g(k) == Y(tr, run.S, b, k, o) - Y(tr, run.S, b, k, i)
             D == MaxSet({g(k) : k \in Pts(case, b)}) - g(kc)
             e == 4 * Tol(run.S, tr.mag[b]) + 8
         IN \/ D <= 16 * e
            \/ g(kc) >= 0 - e                     \* not certified at the centre
            \/ (run.rad[b][i] \div 64) * (D \div 64) <= ((D + g(kc)) \div 64 + CeilDiv(5 * e, 64) + 2) * (run.S \div 64 + 1) + (D + e) \div 64 + run.S \div 32

(* ---------------------------------------------------------- one conversion ---------------------------------- *)
Half(S, b, nb) == nb * 2 + S \div 20000
Mean(case, run, f) ==      \* the loss of a batch is the mean of the losses of its inputs
  LET nb == Len(case.boxes) s == SumSeq(SubSeq(run[f], 1, nb)) IN
  Check(case, run, "LossMean", f, Abs(nb * run[f][nb + 1] - s) <= nb * 3 + SumAbs(SubSeq(run[f], 1, nb)) \div 10000)
Values(case, run, tr) ==
  LET nb == Len(case.boxes) no == NOut(case) S == run.S IN
    /\ \A f \in {"upper", "lower", "adv", "clip", "sigm"} : Mean(case, run, f)
    /\ \A b \in 1..nb :
         LET i == case.labels[b] + 1
             e == 2 * Tol(S, tr.mag[b]) + 4
             up == Excess(case, tr, S, b, 1) lo == Excess(case, tr, S, b, -1) mg == Margin(case, tr, S, b, i)
             full == 4000 * S - e
         IN
         /\ Check(case, run, "LossUpper", <<b, up, run.upper[b]>>, run.upper[b] >= Mn(up, full) - e)
         /\ Check(case, run, "LossLower", <<b, lo, run.lower[b]>>, run.lower[b] >= Mn(lo, full) - e)
         /\ Check(case, run, "LossAdv", <<b, mg, run.adv[b]>>, run.adv[b] >= Mn(mg, full) - e)
         /\ Check(case, run, "LossClip", <<b, run.adv[b], run.clip[b]>>, Abs(run.clip[b] - Mx(run.adv[b], -S)) <= 4)
         /\ Check(case, run, "LossSigmoid", b, run.sigm[b] >= MaxSeq(case.sig[b]) - 12)
         (* in single precision, the relaxation of softmax is only meaningful for outputs of moderate size *)
         /\ Check(case, run, "LossSoftmax", <<b, ProbMargin(case, b, i), run.soft[b]>>, tr.logit[b] > 4 \/ run.soft[b] >= ProbMargin(case, b, i) - 32)
         /\ Check(case, run, "LossSoftmax", <<b, "finite">>, tr.logit[b] > 4 \/ run.softok[b])
         /\ Check(case, run, "LossExact", <<b, "upper">>, ExactOut(case, run, tr, b) => run.upper[b] <= up + e)
         /\ Check(case, run, "LossExact", <<b, "lower">>, ExactOut(case, run, tr, b) => run.lower[b] <= lo + e)
         /\ Check(case, run, "LossExact", <<b, "adv">>, ExactMargin(case, run, tr, b) => run.adv[b] <= mg + e)
         /\ \A j \in 1..no :
              /\ Check(case, run, "CrossEntropy", <<b, j>>, run.ce[b][j] >= Mn(CrossEntropy(case, S, b, j), full) - e)
              /\ Check(case, run, "Asymptotic", <<b, j>>, run.ace[b][j] >= Mn(Mx(Margin(case, tr, S, b, j), -S), full) - e)
         (* with constant bounds, no loss is looser than what they give *)
         /\ ExpIbp(run) =>
              LET u == run.u[b] l == run.l[b]
                  mi(j) == MaxSet({u[o] - l[j] : o \in (1..no) \ {j}})
                  ref(o) == MulDiv(case.refs[b][o], S, case.xden)
              IN /\ Check(case, run, "LossTight", <<b, "upper">>, run.upper[b] <= MaxSet({u[o] - ref(o) : o \in 1..no}) + e)
                 /\ Check(case, run, "LossTight", <<b, "lower">>, run.lower[b] <= MaxSet({ref(o) - l[o] : o \in 1..no}) + e)
                 /\ Check(case, run, "LossTight", <<b, "adv">>, run.adv[b] <= mi(i) + e)
                 /\ \A j \in 1..no :
                      /\ Check(case, run, "LossTight", <<b, "ce", j>>, run.ce[b][j] <= MaxSeq(u) - l[j] + (S * 14) \div 10 + e)     \* log 4 < 1.4
                      /\ Check(case, run, "LossTight", <<b, "ace", j>>, run.ace[b][j] <= Mx(mi(j), -S) + e)
         /\ "rad" \in DOMAIN run => \A j \in 1..no :
              /\ Check(case, run, "RadiusSound", <<b, j, run.rad[b][j]>>, RadiusSound(case, run, tr, b, j))
              /\ Check(case, run, "RadiusExact", <<b, j, run.rad[b][j]>>, (tr.aff[b] /\ ~IsPoint(case, b) /\ GivesAffine(run.m)) => RadiusExact(case, run, tr, b, j))
RunCheck(case, run, tr) ==
  IF ~run.ok THEN Check(case, run, "LossRuns", 0, FALSE)
  ELSE IF ~run.finite THEN Check(case, run, "LossFinite", 0, FALSE)
  ELSE LET nb == Len(case.boxes) no == NOut(case) IN
    /\ Check(case, run, "LossShape", run.shapes, run.shapes.ce = <<nb, no>> /\ run.shapes.ace = <<nb, no>> /\ ("rad" \in DOMAIN run => run.shapes.rad = <<nb, no>>))
    /\ (~(run.shapes.ce = <<nb, no>> /\ run.shapes.ace = <<nb, no>>) \/ Values(case, run, tr))

Semantics(case, tr) ==
  Check(case, [x |-> 0], "Semantics", 0,
    \A b \in 1..Len(case.pts) : \A k \in Pts(case, b) : \A o \in 1..NOut(case) :
      Abs(case.ky[b][k][o] - Y(tr, case.kS, b, k, o)) <= Tol(case.kS, tr.mag[b]))

Init == c = 1 /\ r = 0 /\ t = <<>>
Begin == /\ c <= Len(Trace) /\ r = 0
         /\ t' = Truth(Trace[c]) /\ Semantics(Trace[c], t') = TRUE
         /\ r' = 1 /\ UNCHANGED c
Step == /\ c <= Len(Trace) /\ r >= 1 /\ r <= Len(Trace[c].runs)
        /\ RunCheck(Trace[c], Trace[c].runs[r], t) = TRUE
        /\ IF r < Len(Trace[c].runs) THEN r' = r + 1 /\ UNCHANGED <<c, t>> ELSE c' = c + 1 /\ r' = 0 /\ UNCHANGED t
Next == Begin \/ Step
Spec == Init /\ [][Next]_<<c, r, t>>
Expected == 1 + SumSeq([i \in 1..Len(Trace) |-> 1 + Len(Trace[i].runs)])
AllRead == /\ PrintT("READ " \o ToString(TLCGet("stats").diameter) \o " OF " \o ToString(Expected))
           /\ TLCGet("stats").diameter = Expected
=============================================================================
