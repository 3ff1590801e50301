-------------------------- MODULE PropagateModel --------------------------
(* Every propagation, forward then backward, of small networks over small domains, with every choice of relaxation. *)
EXTENDS Propagate, IOUtils
CONSTANTS Nets, Domains
Sgn == {-1, 1}
(* one hidden layer: every pattern of signs *)
SmallNets == {<<[W |-> <<<<a, 1>>, <<2, -1>>>>, b |-> <<1, 0>>], [W |-> <<<<f>>, <<g>>>>, b |-> <<1>>]>> : a \in Sgn, f \in Sgn, g \in {-2, 1}}
SignNets == {<<[W |-> <<<<a, b>>, <<c, d>>>>, b |-> <<e, 0>>], [W |-> <<<<f>>, <<g>>>>, b |-> <<1>>]>> :
                a \in Sgn, b \in {-2, 1}, c \in {-1, 2}, d \in Sgn, e \in {-1, 1}, f \in Sgn, g \in {-2, 1}}
(* two hidden layers, drawn *)
RndLayer(s, ni, no) == [W |-> [i \in 1..ni |-> [o \in 1..no |-> RndIn(Seed(s, i), o, -2, 2)]], b |-> [o \in 1..no |-> RndIn(s, 90 + o, -2, 2)]]
DeepNets == {<<RndLayer(Seed(k, 1), 1 + (k % 2), 2), RndLayer(Seed(k, 2), 2, 2), RndLayer(Seed(k, 3), 2, 1 + ((k \div 2) % 2))>> : k \in 1..10}
DeepNetsBig == {<<RndLayer(Seed(k, 1), 1 + (k % 2), 2), RndLayer(Seed(k, 2), 2, 2), RndLayer(Seed(k, 3), 2, 1 + ((k \div 2) % 2))>> : k \in 11..60}
BoxDom(lo, hi) == [t |-> "box", lo |-> lo, hi |-> hi]
BallDom(c, e, p) == [t |-> "ball", c |-> c, eps |-> e, p |-> p]
Domains2 == {BoxDom(<<-1, -1>>, <<1, 1>>), BoxDom(<<0, -2>>, <<2, 0>>), BoxDom(<<1, 1>>, <<1, 1>>), BoxDom(<<-2, 1>>, <<1, 1>>),
             BallDom(<<0, 0>>, 1, "1"), BallDom(<<1, -1>>, 2, "1"), BallDom(<<0, 1>>, 1, "inf"), BallDom(<<1, 0>>, 0, "1")}
Domains1 == {BoxDom(<<-2>>, <<1>>), BoxDom(<<0>>, <<2>>), BoxDom(<<1>>, <<1>>), BallDom(<<0>>, 2, "1"), BallDom(<<-1>>, 1, "inf")}
DomainsDef == Domains1 \cup Domains2
VARIABLES net, dom, mode, k, dense, act, phase, bu, bd, o
(* phase "dense": about to enter dense layer k; "relu": about to apply its relus; "back": the affine functions     *)
(* bu, bd bound output o as functions of the inputs of layer k + 1 (the outputs of the relus of layer k).           *)
(* dense, act: the states of the layers met so far.                                                               *)
vars == <<net, dom, mode, k, dense, act, phase, bu, bd, o>>
Init == /\ net \in Nets /\ dom \in Domains /\ Len(Hull(dom).lo) = Len(net[1].W)
        /\ mode \in {"ibp", "affine", "hybrid"}
        /\ k = 1 /\ dense = <<>> /\ act = <<FwdInput(dom)>> /\ phase = "dense" /\ bu = <<>> /\ bd = <<>> /\ o = 0
Dense == /\ phase = "dense"
         /\ dense' = Append(dense, FwdDense(dom, mode, act[k], net[k]))
         /\ phase' = IF k = Len(net) THEN "fwd" ELSE "relu"
         /\ UNCHANGED <<net, dom, mode, k, act, bu, bd, o>>
Relu == /\ phase = "relu"
        /\ \E low \in LowChoices(dense[k]) : act' = Append(act, FwdRelu(dense[k], low))
        /\ k' = k + 1 /\ phase' = "dense"
        /\ UNCHANGED <<net, dom, mode, dense, bu, bd, o>>
Turn == /\ phase = "fwd"
        /\ \E q \in 1..Len(net[Len(net)].b) :
             LET a == BackDense(AVar(Len(net[Len(net)].b), q), net[Len(net)]) IN bu' = a /\ bd' = a /\ o' = q
        /\ k' = Len(net) - 1 /\ phase' = "back"
        /\ UNCHANGED <<net, dom, mode, dense, act>>
Back == /\ phase = "back" /\ k > 0
        /\ \E lu \in LowChoices(dense[k]) :       \* the upper and the lower functions need not use the same relaxation
             /\ bu' = BackDense(BackReluUp(bu, dense[k], lu), net[k])
             /\ bd' = BackDense(BackReluDn(bd, dense[k], lu), net[k])
        /\ k' = k - 1
        /\ UNCHANGED <<net, dom, mode, dense, act, phase, o>>
Next == Dense \/ Relu \/ Turn \/ Back
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------------------------------------------------ *)
Encloses(st, v, x) ==     \* v: the values of the neurons at x
  \A j \in 1..Len(v) : /\ st.lo[j] <= v[j] /\ v[j] <= st.hi[j]
                       /\ ANum(st.up[j], x) >= v[j] * st.up[j].d /\ ANum(st.dn[j], x) <= v[j] * st.dn[j].d
ForwardSound ==
  \A x \in DomPts(dom) :
    /\ Len(dense) > 0 => Encloses(dense[Len(dense)], DenseVal(net[Len(dense)], At(net, Len(dense), x)), x)
    /\ Encloses(act[Len(act)], At(net, Len(act), x), x)
BackwardSound ==
  phase = "back" => \A x \in DomPts(dom) :
    LET h == At(net, k + 1, x) y == Out(net, x)[o] IN ANum(bu, h) >= y * bu.d /\ ANum(bd, h) <= y * bd.d
(* at the end of the backward pass: constant bounds from the extrema over the domain *)
Ends == phase = "back" /\ k = 0
ConstSound == Ends => \A x \in DomPts(dom) : SupNum(dom, bu) >= Out(net, x)[o] * bu.d /\ InfNum(dom, bd) <= Out(net, x)[o] * bd.d
Ordered == Ends => \A x \in DomPts(dom) : ANum(bd, x) * bu.d <= ANum(bu, x) * bd.d
(* all the relus keep a sign over the domain, with the intervals of the chosen mode: the exact affine function *)
Stable == \A q \in 1..(Len(net) - 1) : \A j \in 1..Len(dense[q].lo) : dense[q].lo[j] >= 0 \/ dense[q].hi[j] <= 0
Exact == (Ends \/ phase = "fwd") /\ Stable =>
  \A x \in DomPts(dom) :
    /\ \A j \in 1..Len(dense[Len(net)].up) : LET s == dense[Len(net)] y == Out(net, x)[j] IN ANum(s.up[j], x) = y * s.up[j].d /\ ANum(s.dn[j], x) = y * s.dn[j].d
    /\ Ends => LET y == Out(net, x)[o] IN ANum(bu, x) = y * bu.d /\ ANum(bd, x) = y * bd.d
(* and its extrema over the domain (which are reached at integer points) as constant bounds *)
ExactConst == Ends /\ Stable => LET ys == {Out(net, x)[o] : x \in DomPts(dom)} IN
  /\ \E y \in ys : SupNum(dom, bu) = y * bu.d
  /\ \E y \in ys : InfNum(dom, bd) = y * bd.d
PointExact == Ends /\ Hull(dom).lo = Hull(dom).hi =>
  LET y == Out(net, Hull(dom).lo)[o] IN SupNum(dom, bu) = y * bu.d /\ InfNum(dom, bd) = y * bd.d
(* the best of two intervals is never looser than interval arithmetic on the same layer input *)
HybridTighter == mode = "hybrid" /\ Len(dense) > 0 =>
  LET q == Len(dense) i == FwdDense(dom, "ibp", act[q], net[q]) IN
  \A j \in 1..Len(i.lo) : dense[q].lo[j] >= i.lo[j] /\ dense[q].hi[j] <= i.hi[j]
(* the slope options choose among the admissible relaxations *)
OptionsAdmissible == \A l, u \in -6..6 : l <= u => \A s \in {"volume-slope", "same-slope", "zero-lb", "one-lb", "adaptative-slope"} :
  SlopeRelu(s, l, u) \in LowerRelu(l, u)
(* the relaxations enclose relu on the interval *)
ReluHull == \A l, u \in -6..6 : l <= u =>
  \A z \in l..u : LET a == UpperRelu(l, u) IN a.s * z + a.t >= Pos(z) * a.d /\ \A m \in LowerRelu(l, u) : m.s * z + m.t <= Pos(z) * m.d
ASSUME OptionsAdmissible /\ ReluHull
=============================================================================
