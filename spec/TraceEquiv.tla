----------------------------- MODULE TraceEquiv -----------------------------
(* Validation of the bounds recorded for several descriptions of one network, on several backends: the         *)
(* descriptions compute the same function (in the specification and in the original Keras networks), and the    *)
(* bounds of every conversion are those of the first description on the first backend.                          *)
EXTENDS NetSem, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Clauses == IOEnv.CLAUSES
Asked(cl) == \E i \in 1..(Len(Clauses) - Len(cl) - 1) : SubSeq(Clauses, i, i + Len(cl) + 1) = "+" \o cl \o "+"
VARIABLES c, k, t

MulDiv(y, S, d) == (y \div d) * S + ((y % d) * S) \div d
Big == 1073741823
Tol(S, mag) == (Mn(S * 2, (Big \div (mag + 1))) * (mag + 1)) \div 100000 + 4
(* the values of the first description on the sample points, and the magnitudes met *)
Truth(case) ==
  TLCEval(IF case.pl
  THEN LET plan == Plan(case.variants[1], case.xden) IN
       [mag |-> MaxSeq([b \in 1..Len(case.boxes) |-> ItvMag(plan, AllItvs(plan, case.boxes[b]))]), den |-> plan.den,
        y |-> [b \in 1..Len(case.pts) |-> [j \in 1..Len(case.pts[b]) |-> TLCEval(Eval(plan, case.pts[b][j]))]]]
  ELSE [mag |-> 8 + CeilDiv(MaxSeq([b \in 1..Len(case.pts) |-> MaxSeq([j \in 1..Len(case.pts[b]) |-> MaxAbs(case.views[1].ky[b][j])])]), case.views[1].kS)])

Fail(case, v, cl, note) ==
  PrintT("FAIL " \o cl \o " case=" \o case.id \o " variant=" \o ToString(case.views[v].variant) \o " be=" \o case.views[v].backend \o " at=" \o ToString(note))
Check(case, v, cl, note, ok) == ~Asked(cl) \/ ok \/ Fail(case, v, cl, note)

Same(a, sa, b, sb, e) == Abs(a - MulDiv(b, sa, sb)) <= e
(* the description of view v computes the function of the first one *)
SameFunction(case, v) ==
  LET w == case.views[v] f == case.views[1]
      spec == ~case.pl \/ LET p == Plan(case.variants[w.variant], case.xden) IN
                p.den = t.den /\ \A b \in 1..Len(case.pts) : \A j \in 1..Len(case.pts[b]) : Eval(p, case.pts[b][j]) = t.y[b][j]
      keras == \A b \in 1..Len(case.pts) : \A j \in 1..Len(case.pts[b]) : \A o \in 1..Len(f.ky[b][j]) :
                 Same(w.ky[b][j][o], w.kS, f.ky[b][j][o], f.kS, Tol(w.kS, t.mag) + 2)
  IN Check(case, v, "SameFunction", <<spec, keras>>, spec /\ keras)
SameRun(case, v, q) ==
  LET r == case.views[v].runs[q] r1 == case.views[1].runs[q]
      e == Tol(r.S, t.mag) + 3
      what == [m |-> r.m, slope |-> r.slope, form |-> r.form]
  IN IF r.status # "ok" THEN Check(case, v, "Converts", <<what, r.status>>, FALSE)
     ELSE IF r1.status # "ok" \/ ~r1.finite THEN TRUE
     ELSE IF ~r.finite \/ r.shapes # r1.shapes THEN Check(case, v, "SameBounds", <<what, r.shapes>>, FALSE)
     ELSE \A b \in 1..Len(case.boxes) : Check(case, v, "SameBounds", <<what, b>>,
            /\ \A f \in {"u", "l"} \cap DOMAIN r : \A o \in 1..Len(r[f][b]) : Same(r[f][b][o], r.S, r1[f][b][o], r1.S, e)
            /\ \A f \in {"bu", "bl"} \cap DOMAIN r : \A o \in 1..Len(r[f][b]) : Same(r[f][b][o], r.S, r1[f][b][o], r1.S, 2 * e)
            /\ \A f \in {"wu", "wl"} \cap DOMAIN r : \A i \in 1..Len(r[f][b]) : \A o \in 1..Len(r[f][b][i]) :
                 Same(r[f][b][i][o], r.S, r1[f][b][i][o], r1.S, 2 * e))

Init == c = 1 /\ k = 0 /\ t = IF Len(Trace) = 0 THEN <<>> ELSE Truth(Trace[1])
Step == /\ c <= Len(Trace) /\ k < Len(Trace[c].views)
        /\ (LET v == k + 1 case == Trace[c] IN
             /\ SameFunction(case, v)
             /\ \A q \in 1..Len(case.views[v].runs) : SameRun(case, v, q)) \in BOOLEAN
        /\ k' = k + 1 /\ UNCHANGED <<c, t>>
NextCase == /\ c <= Len(Trace) /\ k = Len(Trace[c].views)
            /\ c' = c + 1 /\ k' = 0 /\ t' = IF c < Len(Trace) THEN Truth(Trace[c + 1]) ELSE <<>>
Next == Step \/ NextCase
Spec == Init /\ [][Next]_<<c, k, t>>
Expected == 1 + SumSeq([i \in 1..Len(Trace) |-> 1 + Len(Trace[i].views)])
AllRead == /\ PrintT("READ " \o ToString(TLCGet("stats").diameter) \o " OF " \o ToString(Expected))
           /\ TLCGet("stats").diameter = Expected
=============================================================================
