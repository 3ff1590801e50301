---------------------------- MODULE TraceSession ----------------------------
(* Validation of recorded histories: the state machine of Session is stepped along each history (case c, history *)
(* h, step k) and every recorded reply must be one which the state allows.                                      *)
EXTENDS Session, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Clauses == IOEnv.CLAUSES
Asked(cl) == \E i \in 1..(Len(Clauses) - Len(cl) - 1) : SubSeq(Clauses, i, i + Len(cl) + 1) = "+" \o cl \o "+"

VARIABLES c, h, k, st, t

MulDiv(y, S, d) == (y \div d) * S + ((y % d) * S) \div d
Big == 1073741823
Tol(S, mag) == (Mn(S * 2, (Big \div (mag + 1))) * (mag + 1)) \div 100000 + 4

(* ------------------------------------------------------------------- truth: one record per version ------- *)
Truth(case) ==
  TLCEval([v \in 1..Len(case.nets) |->
    LET plan == Plan(case.nets[v], case.xden)
        iv == [b \in 1..Len(case.boxes) |-> TLCEval(AllItvs(plan, case.boxes[b]))]
        mag0 == CeilDiv(MaxSeq([b \in 1..Len(case.boxes) |-> MaxSeq([j \in 1..Len(case.ky[v][b]) |-> MaxAbs(case.ky[v][b][j])])]), case.kS) + 8
    IN IF case.pl
       THEN [y |-> [b \in 1..Len(case.pts) |-> [j \in 1..Len(case.pts[b]) |-> TLCEval(Eval(plan, case.pts[b][j]))]], den |-> plan.den,
             mag |-> MaxSeq([b \in 1..Len(case.boxes) |-> ItvMag(plan, iv[b])]),
             aff |-> [b \in 1..Len(case.boxes) |-> AffineOn(plan, case.boxes[b])]]
       ELSE [y |-> case.ky[v], den |-> case.kS, mag |-> mag0, aff |-> [b \in 1..Len(case.boxes) |-> FALSE]]])
Y(tr, S, b, j, o) == MulDiv(tr.y[b][j][o], S, tr.den)
NOut(case) == Len(case.ky[1][1][1])
(* the backward methods reply for flattened feature maps *)
OutShapes(case) == LET sh == Shapes(case.nets[1]) IN {sh[Len(sh)], <<ProdSeq(sh[Len(sh)])>>}

(* the sample points of input b which lie in a domain *)
InDomBall(x, ctr, d) ==
  LET e == [i \in 1..Len(x) |-> Abs(x[i] - ctr[i])] IN
  CASE d.p = "1" -> SumSeq(e) <= d.eps [] d.p = "2" -> Dot(e, e) <= d.eps * d.eps [] OTHER -> MaxSeq(e) <= d.eps
PtsIn(case, b, d) == IF d.t = "box" THEN {j : j \in 1..Len(case.pts[b])}
                     ELSE {j \in 1..Len(case.pts[b]) : InDomBall(case.pts[b][j], case.centers[b], d)}
MaxSet(S) == CHOOSE m \in S : \A e \in S : e <= m
MinSet(S) == CHOOSE m \in S : \A e \in S : e >= m
IsPoint(case, b, d) == IF d.t = "box" THEN case.boxes[b].lo = case.boxes[b].hi ELSE d.eps = 0

(* ------------------------------------------------------------------- reports ------------------------------ *)
Fail(case, s, cl, note) ==
  PrintT("FAIL " \o cl \o " case=" \o case.id \o " be=" \o case.backend \o " hist=" \o ToString(h) \o " step=" \o ToString(k) \o " op=" \o s.op
         \o (IF "i" \in DOMAIN s THEN " conv=" \o (IF s.i = 0 THEN "keras" ELSE ToString([m |-> case.convs[s.i].m, slope |-> case.convs[s.i].slope, form |-> case.convs[s.i].form])) ELSE "")
         \o " at=" \o ToString(note) \o (IF ~s.ok THEN " err=" \o s.err ELSE ""))
Check(case, s, cl, note, ok) == ~Asked(cl) \/ ok \/ Fail(case, s, cl, note)

(* ------------------------------------------------------------------- calls -------------------------------- *)
ExpIbp(cv) == CASE cv.form \in {"TT", "TF"} -> TRUE [] cv.form = "FT" -> FALSE [] OTHER -> cv.m \notin {"forward-affine", "crown-forward-affine"}
ExpAff(cv) == CASE cv.form \in {"TT", "FT"} -> TRUE [] cv.form = "TF" -> FALSE
                [] OTHER -> cv.m \in {"forward-affine", "forward-hybrid", "crown-forward-affine", "crown-forward-hybrid"}
GivesAffine(m) == m \notin {"forward-ibp", "crown", "crown-forward-ibp"}
AffAt(w, d, x, o, xden) == FoldLeftDomain(LAMBDA acc, i : acc + w[i][o] * x[i], 0, x) + d[o] * xden
ATol(S, mag, x, xden) == Tol(S, mag) * xden + SumAbs(x)

CallSound(case, s, tr, d) ==
  LET cv == case.convs[s.i] e == Tol(s.S, tr.mag) IN
  \A q \in 1..Len(s.batch) : LET b == s.batch[q] IN
    \A o \in 1..NOut(case) :
      /\ ExpIbp(cv) => Check(case, s, "CallConst", <<q, o>>,
           \A j \in PtsIn(case, b, d) : s.u[q][o] >= Y(tr, s.S, b, j, o) - e /\ s.l[q][o] <= Y(tr, s.S, b, j, o) + e)
      /\ ExpAff(cv) => Check(case, s, "CallAffine", <<q, o>>,
           \A j \in PtsIn(case, b, d) :
             LET x == case.pts[b][j] ea == ATol(s.S, tr.mag, x, case.xden) y == Y(tr, s.S, b, j, o) * case.xden IN
             /\ AffAt(s.wu[q], s.bu[q], x, o, case.xden) >= y - ea
             /\ AffAt(s.wl[q], s.bl[q], x, o, case.xden) <= y + ea)
(* the reply to each input is that of a network freshly converted for the current weights and domain *)
Same(a, sa, b, sb, e) == Abs(a - MulDiv(b, sa, sb)) <= e
CallFresh(case, s, state, tr) ==
  LET cv == case.convs[s.i]
      rs == SelectSeq(case.refs, LAMBDA r : r.i = s.i /\ r.wv = WeightsOf(state, s.i) /\ r.dom = state.dom[s.i])
      e == Tol(s.S, tr.mag) + 3
  IN IF state.par[s.i] # 0 THEN TRUE
     ELSE Check(case, s, "CallFresh", 0, Len(rs) > 0) /\ (Len(rs) = 0 \/ LET r == rs[1] IN
       Check(case, s, "CallFresh", r, r.ok /\ r.finite) /\ (~(r.ok /\ r.finite) \/
       \A q \in 1..Len(s.batch) : LET b == s.batch[q] IN
         Check(case, s, "CallFresh", <<q, b>>,
           \A o \in 1..NOut(case) :
             /\ ExpIbp(cv) => Same(s.u[q][o], s.S, r.u[b][o], r.S, e) /\ Same(s.l[q][o], s.S, r.l[b][o], r.S, e)
             /\ ExpAff(cv) => \A j \in PtsIn(case, b, state.dom[s.i]) :     \* the same functions on the domain
                  LET x == case.pts[b][j] ea == 2 * ATol(s.S, tr.mag, x, case.xden) IN
                  /\ Same(AffAt(s.wu[q], s.bu[q], x, o, case.xden), s.S, AffAt(r.wu[b], r.bu[b], x, o, case.xden), r.S, ea)
                  /\ Same(AffAt(s.wl[q], s.bl[q], x, o, case.xden), s.S, AffAt(r.wl[b], r.bl[b], x, o, case.xden), r.S, ea))))
CallShape(case, s) ==
  LET cv == case.convs[s.i] n == Len(s.batch) i == case.nets[1].nin
      sh(f, x) == f \in DOMAIN s /\ s.shapes[f] = x
  IN Check(case, s, "CallShape", 0, \E o \in OutShapes(case) :
                                    /\ ExpIbp(cv) => sh("u", <<n>> \o o) /\ sh("l", <<n>> \o o)
                                    /\ ExpAff(cv) => sh("wu", <<n, i>> \o o) /\ sh("wl", <<n, i>> \o o) /\ sh("bu", <<n>> \o o) /\ sh("bl", <<n>> \o o))

(* a linear specification C of the outputs for each input of the batch *)
SpecVal(C, b, tr, S, j, col) == FoldLeftDomain(LAMBDA acc, o : acc + C[o][col] * Y(tr, S, b, j, o), 0, C)
CallSpec(case, s, tr, d) ==
  LET cv == case.convs[s.i]
      nc == Len(s.C[1][1])
      amp == 1 + 2 * NOut(case)
      e == Tol(s.S, tr.mag * amp) + amp
      n == Len(s.batch)
      sh(f, x) == f \in DOMAIN s /\ s.shapes[f] = x
      shp == /\ ExpIbp(cv) => sh("u", <<n, nc>>) /\ sh("l", <<n, nc>>)
             /\ ExpAff(cv) => sh("wu", <<n, case.nets[1].nin, nc>>) /\ sh("wl", <<n, case.nets[1].nin, nc>>) /\ sh("bu", <<n, nc>>) /\ sh("bl", <<n, nc>>)
  IN Check(case, s, "SpecShape", 0, shp) /\ (~shp \/
     \A q \in 1..n : LET b == s.batch[q] IN \A col \in 1..nc :
       /\ ExpIbp(cv) => Check(case, s, "SpecConst", <<q, col>>,
            \A j \in PtsIn(case, b, d) : LET y == SpecVal(s.C[q], b, tr, s.S, j, col) IN s.u[q][col] >= y - e /\ s.l[q][col] <= y + e)
       /\ ExpAff(cv) => Check(case, s, "SpecAffine", <<q, col>>,
            \A j \in PtsIn(case, b, d) :
              LET x == case.pts[b][j] y == SpecVal(s.C[q], b, tr, s.S, j, col) * case.xden ea == e * case.xden + SumAbs(x) IN
              /\ AffAt(s.wu[q], s.bu[q], x, col, case.xden) >= y - ea
              /\ AffAt(s.wl[q], s.bl[q], x, col, case.xden) <= y + ea))

(* ------------------------------------------------------------------- ranges ------------------------------- *)
(* methods whose reply is exact when the network is affine on the domain *)
ExactM(case, s, d) == s.i = 0 \/ LET m == case.convs[s.i].m IN IF d.t = "box" \/ d.p = "inf" THEN m # "forward-ibp" ELSE GivesAffine(m)
ExactHere(case, s, b, d, tr) == ~HasFn(case.nets[1], {"softplus"}) /\ (IsPoint(case, b, d) \/ (tr.aff[b] /\ ExactM(case, s, d) /\ (d.t = "box" \/ d.p # "2")))
RangeOk(case, s, tr, d) ==
  LET e == Tol(s.S, tr.mag)
      n == Len(s.batch)
      up == s.fn \in {"range", "upper"} dn == s.fn \in {"range", "lower"}
      shp == \E o \in OutShapes(case) : (up => s.shapes.u = <<n>> \o o) /\ (dn => s.shapes.l = <<n>> \o o)
  IN Check(case, s, "RangeShape", s.shapes, shp) /\ (~shp \/
     \A q \in 1..n : LET b == s.batch[q] pts == PtsIn(case, b, d) IN \A o \in 1..NOut(case) :
       LET ys == {Y(tr, s.S, b, j, o) : j \in pts} IN
       /\ up => Check(case, s, "RangeSound", <<q, o>>, s.u[q][o] >= MaxSet(ys) - e)
       /\ dn => Check(case, s, "RangeSound", <<q, o>>, s.l[q][o] <= MinSet(ys) + e)
       /\ up => Check(case, s, "RangeExact", <<q, o>>, ExactHere(case, s, b, d, tr) => s.u[q][o] <= MaxSet(ys) + e)
       /\ dn => Check(case, s, "RangeExact", <<q, o>>, ExactHere(case, s, b, d, tr) => s.l[q][o] >= MinSet(ys) - e))

(* ------------------------------------------------------------------- scores ------------------------------- *)
Sources(s, q) == {s.lab.src.is[q][j] + 1 : j \in 1..Len(s.lab.src.is[q])}
Targets(case, s, q) == IF s.lab.tgt.form = "none" THEN (1..NOut(case)) \ Sources(s, q)
                       ELSE {s.lab.tgt.is[q][j] + 1 : j \in 1..Len(s.lab.tgt.is[q])}
(* the largest margin which a sample point of input b attains, over S *)
Margin(case, s, q, tr, d) ==
  LET b == s.batch[q] IN
  MaxSet({Y(tr, s.S, b, j, o[1]) - Y(tr, s.S, b, j, o[2]) : j \in PtsIn(case, b, d), o \in Targets(case, s, q) \X Sources(s, q)})
ScoreOk(case, s, tr, d, attack) ==      \* attack: a score attained in the domain, to compare from above
  LET e == 2 * Tol(s.S, tr.mag) + 2
      n == Len(s.batch)
      ok == s.shapes.v = <<n>>
      exact(q) == (s.i = 0 \/ ~case.convs[s.i].spec) /\ ExactHere(case, s, s.batch[q], d, tr) /\ (IsPoint(case, s.batch[q], d) \/ (s.i > 0 /\ GivesAffine(case.convs[s.i].m) /\ ExpAff(case.convs[s.i])))
  IN Check(case, s, "ScoreShape", s.shapes, ok) /\ (~ok \/
     \A q \in 1..n :
       LET m == Margin(case, s, q, tr, d) IN
       /\ ~attack => Check(case, s, "ScoreSound", <<q, m>>, s.v[q] >= m - e)
       /\ attack => Check(case, s, "ScoreAttained", <<q, m>>, s.v[q] <= m + e)
       /\ Check(case, s, "ScoreExact", <<q, m>>, exact(q) => Abs(s.v[q] - m) <= e))

(* the reply to the same query cut into batches differently *)
SameAs(case, s, p) ==
  "same" \in DOMAIN s =>
    LET e == 6 + s.S \div 20000 IN
    Check(case, s, "BatchSame", 0,
      /\ s.shapes = p.shapes
      /\ \A f \in {"u", "l", "v"} \cap DOMAIN s : \A q \in 1..Len(s[f]) :
           IF f = "v" THEN Abs(s.v[q] - MulDiv(p.v[q], s.S, p.S)) <= e + Abs(s.v[q]) \div 20000
           ELSE \A o \in 1..Len(s[f][q]) : Abs(s[f][q][o] - MulDiv(p[f][q][o], s.S, p.S)) <= e + Abs(s[f][q][o]) \div 20000)
(* a refined search with interval-only bounds is never looser than the bound of the whole box *)
RefineTighter(case, s, state) ==
  IF s.fn \notin {"upper", "lower"} \/ s.i = 0 THEN TRUE
  ELSE IF case.convs[s.i].m # "forward-ibp" THEN TRUE
  ELSE LET rs == SelectSeq(case.refs, LAMBDA r : r.i = s.i /\ r.wv = WeightsOf(state, s.i) /\ r.dom = state.dom[s.i] /\ r.ok /\ r.finite) IN
       Len(rs) = 0 \/ LET r == rs[1] e == 6 + s.S \div 20000 IN
         \A q \in 1..Len(s.batch) : \A o \in 1..NOut(case) :
           Check(case, s, "RefineTighter", <<q, o>>,
             IF s.fn = "upper" THEN s.u[q][o] <= MulDiv(r.u[s.batch[q]][o], s.S, r.S) + e
             ELSE s.l[q][o] >= MulDiv(r.l[s.batch[q]][o], s.S, r.S) - e)

(* ------------------------------------------------------------------- one step ----------------------------- *)
Reply(case, s, p, state, tr0) ==
  LET tr == IF s.op \in Queries /\ s.i > 0 THEN tr0[WeightsOf(state, s.i)] ELSE tr0[state.wv] IN
  IF ~s.ok THEN Check(case, s, "Runs", 0, FALSE)
  ELSE IF ~s.finite THEN Check(case, s, "FiniteReply", 0, FALSE)
  ELSE CASE s.op = "call" -> CallShape(case, s) /\ CallSound(case, s, tr, state.dom[s.i]) /\ CallFresh(case, s, state, tr)
    [] s.op = "callc" -> CallSpec(case, s, tr, state.dom[s.i])
    [] s.op = "range" -> RangeOk(case, s, tr, Box) /\ SameAs(case, s, p)
    [] s.op = "noise" -> RangeOk(case, s, tr, NoiseDom(case, state, s)) /\ SameAs(case, s, p)
    [] s.op = "adv" -> ScoreOk(case, s, tr, Box, FALSE) /\ SameAs(case, s, p)
    [] s.op = "check" -> ScoreOk(case, s, tr, Box, TRUE) /\ SameAs(case, s, p)
    [] s.op = "advnoise" -> ScoreOk(case, s, tr, NoiseDom(case, state, s), FALSE) /\ SameAs(case, s, p)
    [] s.op = "refine" -> /\ IF s.fn \in {"upper", "lower"} THEN RangeOk(case, s, tr, Box) /\ RefineTighter(case, s, state)
                             ELSE ScoreOk(case, s, tr, Box, s.fn = "check")
                          /\ SameAs(case, s, p)
    [] OTHER -> TRUE

(* after each history, the original network still computes the function of its current weights *)
EndOk(case, hist) == ~Asked("OrigEnd") \/ hist.end \/ Fail(case, [op |-> "end", ok |-> TRUE], "OrigEnd", 0)
Semantics(case, tr) ==
  ~Asked("Semantics") \/ ~case.pl \/
  (\A v \in 1..Len(case.nets) : \A b \in 1..Len(case.pts) : \A j \in 1..Len(case.pts[b]) : \A o \in 1..NOut(case) :
     Abs(case.ky[v][b][j][o] - Y(tr[v], case.kS, b, j, o)) <= Tol(case.kS, tr[v].mag))
  \/ Fail(case, [op |-> "original", ok |-> TRUE], "Semantics", 0)

Cur == Trace[c]
Init == c = 1 /\ h = 0 /\ k = 0 /\ st = <<>> /\ t = <<>>
Begin ==        \* a case, then its first history
  /\ c <= Len(Trace) /\ h = 0
  /\ t' = Truth(Cur) /\ Semantics(Cur, t') = TRUE
  /\ h' = 1 /\ k' = 0 /\ st' = InitState(Cur) /\ UNCHANGED c
Step ==
  /\ c <= Len(Trace) /\ h >= 1 /\ h <= Len(Cur.hist) /\ k < Len(Cur.hist[h].steps)
  /\ LET s == Cur.hist[h].steps[k + 1] IN
     /\ Enabled(Cur, st, s) = TRUE
     /\ st' = Apply(Cur, st, s)
     /\ Reply(Cur, s, IF k = 0 THEN s ELSE Cur.hist[h].steps[k], IF s.op \in Queries THEN st ELSE st', t) = TRUE
  /\ k' = k + 1 /\ UNCHANGED <<c, h, t>>
NextHist ==
  /\ c <= Len(Trace) /\ h >= 1 /\ h <= Len(Cur.hist) /\ k = Len(Cur.hist[h].steps)
  /\ EndOk(Cur, Cur.hist[h]) = TRUE
  /\ k' = 0 /\ st' = InitState(Cur)
  /\ IF h < Len(Cur.hist) THEN h' = h + 1 /\ UNCHANGED <<c, t>> ELSE c' = c + 1 /\ h' = 0 /\ UNCHANGED t
Next == Begin \/ Step \/ NextHist
Spec == Init /\ [][Next]_<<c, h, k, st, t>>
Expected == 1 + SumSeq([i \in 1..Len(Trace) |-> 1 + SumSeq([j \in 1..Len(Trace[i].hist) |-> 1 + Len(Trace[i].hist[j].steps)])])
AllRead == /\ PrintT("READ " \o ToString(TLCGet("stats").diameter) \o " OF " \o ToString(Expected))
           /\ TLCGet("stats").diameter = Expected
=============================================================================
