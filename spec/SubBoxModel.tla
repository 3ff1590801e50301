---------------------------- MODULE SubBoxModel ----------------------------
(* Every refinement of small boxes, with every function on their integer points: the parts form a partition, and  *)
(* the bound obtained by aggregating over the parts a sound and inclusion monotone bound is sound, and never      *)
(* looser than the bound of the whole box.                                                                       *)
EXTENDS SubBox
CONSTANTS Roots, MaxParts, Values
RootsDef == {[lo |-> <<0>>, hi |-> <<8>>], [lo |-> <<-2>>, hi |-> <<2>>], [lo |-> <<3>>, hi |-> <<3>>], [lo |-> <<0, 0>>, hi |-> <<2, 1>>],
             [lo |-> <<0, 5>>, hi |-> <<4, 5>>], [lo |-> <<-1, 0>>, hi |-> <<1, 2>>], [lo |-> <<1, 1>>, hi |-> <<1, 1>>]}
RootsBig == {[lo |-> <<0, 0, 0>>, hi |-> <<4, 2, 0>>], [lo |-> <<0, 0>>, hi |-> <<4, 4>>], [lo |-> <<0, 0, 0>>, hi |-> <<2, 2, 2>>],
             [lo |-> <<-8>>, hi |-> <<8>>]}
VARIABLES root, parts, f, kind

Pts(b) == {x \in [Dims(b) -> UNION {b.lo[i]..b.hi[i] : i \in Dims(b)}] : HasPt(b, x)}
MaxS(S) == CHOOSE m \in S : \A e \in S : e <= m
(* a sound, inclusion monotone upper bound of f on a box: the maximum, plus the widths *)
Upper(b) == MaxS({f[x] : x \in Pts(b)}) + SumSeq([i \in Dims(b) |-> Side(b, i)])
Refined == MaxSeq([k \in 1..Len(parts) |-> Upper(parts[k])])

Init == /\ root \in Roots /\ parts = <<root>> /\ kind \in {"one", "all"}
        /\ f \in [Pts(root) -> Values]
One == /\ kind = "one" /\ Len(parts) < MaxParts
       /\ \E k \in 1..Len(parts) : \E i \in Dims(root) :
            /\ (parts[k].lo[i] + parts[k].hi[i]) % 2 = 0          \* stay on integer points
            /\ parts' = HalveOne(parts, k, i)
       /\ UNCHANGED <<root, f, kind>>
All == /\ kind = "all" /\ 2 * Len(parts) <= MaxParts
       /\ \E dims \in [1..Len(parts) -> Dims(root)] :
            /\ \A k \in 1..Len(parts) : dims[k] \in Widest(parts[k]) /\ (parts[k].lo[dims[k]] + parts[k].hi[dims[k]]) % 2 = 0
            /\ parts' = HalveAll(parts, dims)
       /\ UNCHANGED <<root, f, kind>>
Next == One \/ All
Spec == Init /\ [][Next]_<<root, parts, f, kind>>

Set == {parts[k] : k \in 1..Len(parts)}
(* halving a side reduced to a point makes copies, which may then overlap: harmless, but no partition *)
Partition == /\ Contained(root, Set) /\ Covers(root, Set)
             /\ kind = "all" \/ Solid(root) = Dims(root) => Disjoint(root, Set)
EveryPoint == \A x \in Pts(root) : \E p \in Set : HasPt(p, x)
Sound == \A x \in Pts(root) : Refined >= f[x]
Tighter == Refined <= Upper(root)
CountAll == kind = "all" => Len(parts) \in {1, 2, 4, 8}
=============================================================================
