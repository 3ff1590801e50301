----------------------------- MODULE MergeModel -----------------------------
(* Bounds of the merge of two operands: for every pair of intervals, every merge, every admissible plane and every   *)
(* position of the operands between their own bounds, the plane composed with the bounds of the operands encloses     *)
(* the merge.  A state is a merge, two intervals, and a plane above (below) the merge on the rectangle; the second    *)
(* step chooses the bounds of the operands at one input.                                                            *)
EXTENDS Propagate
CONSTANT R
VARIABLES op, x, y, pl, side, at
vars == <<op, x, y, pl, side, at>>
Ops == {"add", "sub", "avg", "max", "min", "mul"}
Intervals == {i \in [lo : -R..R, hi : -R..R] : i.lo <= i.hi}
(* a plane (a X + b Y + c) / d *)
Pl(a, b, c, d) == [a |-> a, b |-> b, c |-> c, d |-> d]
Val(o, p, q) == CASE o = "add" -> 2 * (p + q) [] o = "sub" -> 2 * (p - q) [] o = "avg" -> p + q [] o = "max" -> 2 * Mx(p, q) [] o = "min" -> 2 * Mn(p, q)
                  [] o = "mul" -> 2 * p * q       \* twice the value
(* max(x, y) = relu(x - y) + y,  min(x, y) = x - relu(x - y) *)
Diff(i, j) == [lo |-> i.lo - j.hi, hi |-> i.hi - j.lo]
ReluPlaneUp(ln) == Pl(ln.s, -ln.s, ln.t, ln.d)
PlusY(p) == Pl(p.a, p.b + p.d, p.c, p.d)
XMinus(p) == Pl(p.d - p.a, -p.b, -p.c, p.d)
Planes(o, s, i, j) ==
  LET d == Diff(i, j)
      up == {ReluPlaneUp(UpperRelu(d.lo, d.hi))}
      low == {ReluPlaneUp(l) : l \in LowerRelu(d.lo, d.hi)}
  IN CASE o = "add" -> {Pl(1, 1, 0, 1)} [] o = "sub" -> {Pl(1, -1, 0, 1)} [] o = "avg" -> {Pl(1, 1, 0, 2)}
       [] o = "max" -> {PlusY(p) : p \in IF s = "up" THEN up ELSE low}
       [] o = "min" -> {XMinus(p) : p \in IF s = "up" THEN low ELSE up}
       [] o = "mul" -> IF s = "up" THEN {Pl(j.lo, i.hi, -i.hi * j.lo, 1), Pl(j.hi, i.lo, -i.lo * j.hi, 1)}         \* McCormick
                       ELSE {Pl(j.lo, i.lo, -i.lo * j.lo, 1), Pl(j.hi, i.hi, -i.hi * j.hi, 1)}
Init == /\ op \in Ops /\ x \in Intervals /\ y \in Intervals /\ side \in {"up", "dn"}
        /\ pl \in Planes(op, side, x, y) /\ at = <<>>
(* the bounds of the operands at one input of the network *)
Next == /\ at = <<>>
        /\ \E b \in [xl : x.lo..x.hi, xu : x.lo..x.hi, yl : y.lo..y.hi, yu : y.lo..y.hi] :
             b.xl <= b.xu /\ b.yl <= b.yu /\ at' = b
        /\ UNCHANGED <<op, x, y, pl, side>>
Spec == Init /\ [][Next]_vars
Plane(p, q) == pl.a * p + pl.b * q + pl.c
PlaneSound == \A p \in x.lo..x.hi : \A q \in y.lo..y.hi :
  IF side = "up" THEN 2 * Plane(p, q) >= Val(op, p, q) * pl.d ELSE 2 * Plane(p, q) <= Val(op, p, q) * pl.d
(* composed: a positive coefficient takes the bound of the same side *)
Comp == LET pick(k, hi, lo) == k * (IF (k >= 0) = (side = "up") THEN hi ELSE lo) IN pick(pl.a, at.xu, at.xl) + pick(pl.b, at.yu, at.yl) + pl.c
ComposedSound == at # <<>> => \A p \in at.xl..at.xu : \A q \in at.yl..at.yu :
  IF side = "up" THEN 2 * Comp >= Val(op, p, q) * pl.d ELSE 2 * Comp <= Val(op, p, q) * pl.d
(* exact for the linear merges, and for the others on a rectangle reduced to a point *)
PointExact == (op \in {"add", "sub", "avg"} \/ (x.lo = x.hi /\ y.lo = y.hi)) => \A p \in x.lo..x.hi : \A q \in y.lo..y.hi : 2 * Plane(p, q) = Val(op, p, q) * pl.d
=============================================================================
