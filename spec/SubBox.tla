------------------------------- MODULE SubBox -------------------------------
(* Refinement of a box into sub-boxes, as a state machine: starting from the box itself, halve one part along one *)
(* dimension (refine_box), or every part along one of its widest dimensions (refine_boxes).                      *)
(* A box is [lo, hi]; its sides may be reduced to a point.                                                        *)
EXTENDS Num

Dims(b) == 1..Len(b.lo)
Solid(b) == {i \in Dims(b) : b.lo[i] < b.hi[i]}
Side(b, i) == b.hi[i] - b.lo[i]
HasPt(b, x) == \A i \in Dims(b) : b.lo[i] <= x[i] /\ x[i] <= b.hi[i]
Inside(p, b) == \A i \in Dims(b) : b.lo[i] <= p.lo[i] /\ p.lo[i] <= p.hi[i] /\ p.hi[i] <= b.hi[i]

(* the cells cut out of the box by the faces of the parts: each one lies in exactly one part                      *)
Cuts(b, parts, i) == {b.lo[i], b.hi[i]} \cup {p.lo[i] : p \in parts} \cup {p.hi[i] : p \in parts}
NextCut(cuts, a) == CHOOSE c \in cuts : c > a /\ \A e \in cuts : e > a => c <= e
Cells(b, parts) == LET f == [i \in Solid(b) |-> {c \in Cuts(b, parts, i) : c < b.hi[i] /\ c >= b.lo[i]}]
                       RECURSIVE Grow(_, _)
                       Grow(is, acc) == IF is = {} THEN acc
                                        ELSE LET i == CHOOSE i \in is : TRUE
                                             IN Grow(is \ {i}, {g @@ (i :> c) : g \in acc, c \in f[i]})
                   IN Grow(Solid(b), {<<>>})
InCell(b, parts, p, cell) == \A i \in Solid(b) : p.lo[i] <= cell[i] /\ p.hi[i] >= NextCut(Cuts(b, parts, i), cell[i])
Contained(b, parts) == \A p \in parts : Inside(p, b)
Covers(b, parts) == parts # {} /\ \A cell \in Cells(b, parts) : \E p \in parts : InCell(b, parts, p, cell)
Disjoint(b, parts) == \A cell \in Cells(b, parts) : Cardinality({p \in parts : InCell(b, parts, p, cell)}) <= 1
IsPartition(b, parts) == Contained(b, parts) /\ Covers(b, parts) /\ Disjoint(b, parts)
(* the number of parts of a refinement by rounds of halving, asked n parts *)
RoundCount(n) == CHOOSE p \in {2 ^ k : k \in 0..10} : p <= n /\ n < 2 * p

(* ------------------------------------------------------------ the steps ---------------------------------- *)
Halves(p, i) == LET m == (p.lo[i] + p.hi[i]) \div 2 IN <<[p EXCEPT !.hi[i] = m], [p EXCEPT !.lo[i] = m]>>
HalveOne(parts, k, i) == Append([parts EXCEPT ![k] = Halves(parts[k], i)[1]], Halves(parts[k], i)[2])
Widest(p) == {i \in Dims(p) : \A j \in Dims(p) : Side(p, j) <= Side(p, i)}
HalveAll(parts, dims) == FlattenSeq([k \in 1..Len(parts) |-> Halves(parts[k], dims[k])])
=============================================================================
