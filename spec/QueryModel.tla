----------------------------- MODULE QueryModel -----------------------------
(* A query on several boxes, each split into parts, submitted to the converted network in batches of bs rows, as a   *)
(* state machine, for every table of bounds of the parts, every labels and targets: the reply for a box is the       *)
(* aggregate over its own parts, with its own labels, whatever the batch size.                                       *)
EXTENDS Num
CONSTANTS MaxBoxes, MaxParts, Outs, Values
VARIABLES n, k, bs, up, lo, src, tgt, pos, acc
vars == <<n, k, bs, up, lo, src, tgt, pos, acc>>
Rows == n * k
BoxOf(r) == ((r - 1) \div k) + 1            \* the rows of a box are consecutive
PartOf(r) == ((r - 1) % k) + 1
(* up, lo: for every box and part, bounds of each output; src: the source label of each box; tgt: its target, or 0: any other label *)
Tables == [1..n -> [1..k -> [Outs -> Values]]]
Init == /\ n \in 1..MaxBoxes /\ k \in 1..MaxParts /\ bs \in 1..(MaxBoxes * MaxParts)
        /\ up \in Tables /\ lo \in {[i \in 1..n |-> [j \in 1..k |-> [q \in Outs |-> up[i][j][q] - ((i + j + q) % 2)]]]}
        /\ src \in [1..n -> Outs] /\ tgt \in {f \in [1..n -> Outs \cup {0}] : \A i \in 1..n : f[i] # src[i]}
        /\ pos = 1 /\ acc = <<>>
Targets(i) == IF tgt[i] = 0 THEN Outs \ {src[i]} ELSE {tgt[i]}
(* an upper bound of the margin of row r *)
MarginOf(i, j) == LET c == {up[i][j][q] - lo[i][j][src[i]] : q \in Targets(i)} IN CHOOSE m \in c : \A e \in c : e <= m
Batch == /\ pos <= Rows
         /\ LET last == Mn(pos + bs - 1, Rows) IN
              /\ acc' = acc \o [r \in 1..(last - pos + 1) |-> LET i == BoxOf(pos + r - 1) j == PartOf(pos + r - 1) IN
                                   [up |-> up[i][j], lo |-> lo[i][j], mg |-> MarginOf(i, j)]]
              /\ pos' = last + 1
         /\ UNCHANGED <<n, k, bs, up, lo, src, tgt>>
Next == Batch
Spec == Init /\ [][Next]_vars
Group(i) == [j \in 1..k |-> acc[(i - 1) * k + j]]
Done == pos > Rows
(* what the boxes really do: any function of the outputs between the bounds of the part it is in *)
RangeOk == Done => \A i \in 1..n : \A q \in Outs :
  /\ \A j \in 1..k : MaxSeq([p \in 1..k |-> Group(i)[p].up[q]]) >= up[i][j][q] /\ MinSeq([p \in 1..k |-> Group(i)[p].lo[q]]) <= lo[i][j][q]
  /\ \E j \in 1..k : MaxSeq([p \in 1..k |-> Group(i)[p].up[q]]) = up[i][j][q]
(* the score of a box is at least every margin: target output minus source output, anywhere between the bounds *)
ScoreOk == Done => \A i \in 1..n : \A j \in 1..k : \A t \in Targets(i) : \A a \in lo[i][j][t]..up[i][j][t] : \A b \in lo[i][j][src[i]]..up[i][j][src[i]] :
  MaxSeq([p \in 1..k |-> Group(i)[p].mg]) >= a - b
Complete == Done => Len(acc) = Rows
=============================================================================
