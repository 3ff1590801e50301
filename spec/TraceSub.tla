------------------------------ MODULE TraceSub ------------------------------
(* Validation of recorded refinements: the sub-boxes of each box are those of a refinement of SubBox.tla.         *)
EXTENDS SubBox, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Clauses == IOEnv.CLAUSES
Asked(cl) == \E i \in 1..(Len(Clauses) - Len(cl) - 1) : SubSeq(Clauses, i, i + Len(cl) + 1) = "+" \o cl \o "+"
VARIABLES c, k

Fail(case, s, cl, note) ==
  PrintT("FAIL " \o cl \o " case=" \o case.id \o " be=" \o case.backend \o " step=" \o ToString(k + 1)
         \o (IF case.kind = "parts" THEN " asked=" \o ToString(s.asked)
             ELSE " query=" \o ToString([op |-> s.op, fn |-> s.fn, nsub |-> s.nsub, bs |-> s.bs, random |-> s.random]))
         \o " at=" \o ToString(note) \o (IF ~s.ok THEN " err=" \o s.err ELSE ""))
Check(case, s, cl, note, ok) == ~Asked(cl) \/ ok \/ Fail(case, s, cl, note)

Range1(q) == {q[i] : i \in 1..Len(q)}
OneBox(case, s, b, parts, count, exact) ==
  LET root == case.roots[b] ps == parts IN
  IF ~Contained(root, ps) THEN Check(case, s, "SubInside", b, FALSE)
  ELSE /\ Check(case, s, "SubCovers", b, Covers(root, ps))
       /\ Check(case, s, "SubDisjoint", b, (exact \/ Solid(root) = Dims(root)) => Disjoint(root, ps))
PartsOk(case, s) ==
  LET n == RoundCount(s.asked) nb == Len(case.roots) sh == <<nb, n>> \o case.shape IN
  /\ Check(case, s, "SubShape", s.shapes, s.shapes = <<sh, sh>>)
  /\ (s.shapes[1] # sh \/ \A b \in 1..nb : OneBox(case, s, b, Range1(s.parts[b]), n, TRUE))
(* what a query examined: each sub-box belongs to one of the boxes, which lie apart *)
QueryOk(case, s) ==
  LET all == Range1(s.parts)
      of(b) == {p \in all : Inside(p, case.roots[b])}
      n == IF s.op = "refine" THEN s.nsub ELSE RoundCount(s.nsub)
  IN ~s.known \/
     (/\ Check(case, s, "SubInside", 0, all = UNION {of(b) : b \in 1..Len(case.roots)})
      /\ \A b \in 1..Len(case.roots) :
           /\ OneBox(case, s, b, of(b), n, ~s.random)
           /\ Check(case, s, "SubCount", <<b, Cardinality(of(b))>>, s.random \/ case.roots[b].lo = case.roots[b].hi \/ Cardinality(of(b)) = n))
StepOk(case, s) == IF ~s.ok THEN Check(case, s, "Runs", 0, FALSE) ELSE IF case.kind = "parts" THEN PartsOk(case, s) ELSE QueryOk(case, s)

Init == c = 1 /\ k = 0
Step == /\ c <= Len(Trace) /\ k < Len(Trace[c].steps)
        /\ StepOk(Trace[c], Trace[c].steps[k + 1]) = TRUE
        /\ k' = k + 1 /\ c' = c
NextCase == /\ c <= Len(Trace) /\ k = Len(Trace[c].steps)
            /\ c' = c + 1 /\ k' = 0
Next == Step \/ NextCase
Spec == Init /\ [][Next]_<<c, k>>
Expected == 1 + SumSeq([i \in 1..Len(Trace) |-> 1 + Len(Trace[i].steps)])
AllRead == /\ PrintT("READ " \o ToString(TLCGet("stats").diameter) \o " OF " \o ToString(Expected))
           /\ TLCGet("stats").diameter = Expected
=============================================================================
