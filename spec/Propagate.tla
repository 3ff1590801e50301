----------------------------- MODULE Propagate -----------------------------
(* Propagation of bounds through a network of dense layers and relus, as a state machine: forward, layer after    *)
(* layer, of an interval and of an upper and a lower affine function of the input for every neuron; then           *)
(* backward, from the output to the input, of an upper and a lower affine function of the neurons of a layer.      *)
(* Which relaxation of a relu is used is left open: any admissible one (the slope options of the library, and      *)
(* the values of the trainable parameters).  Exact rational arithmetic: an affine function is [w, b, d], whose      *)
(* value at x is (w.x + b) / d, with d > 0.                                                                       *)
EXTENDS Num

Aff(w, b, d) == [w |-> w, b |-> b, d |-> d]
AConst(n, c) == Aff([i \in 1..n |-> 0], c, 1)
AVar(n, k) == Aff([i \in 1..n |-> IF i = k THEN 1 ELSE 0], 0, 1)
AMul(a, k) == Aff([i \in 1..Len(a.w) |-> k * a.w[i]], k * a.b, a.d)
AAdd(a, c) == Aff([i \in 1..Len(a.w) |-> a.w[i] * c.d + c.w[i] * a.d], a.b * c.d + c.b * a.d, a.d * c.d)
AShift(a, k) == Aff(a.w, a.b + k * a.d, a.d)
ASum(n, s) == FoldLeft(AAdd, AConst(n, 0), s)
ANum(a, x) == Dot(a.w, x) + a.b                  \* d times the value at x

(* ------------------------------------------------------- domains ---------------------------------------- *)
(* [t |-> "box", lo, hi]  or  [t |-> "ball", c, eps, p] with p in {"1", "inf"}                                 *)
Hull(D) == IF D.t = "box" THEN [lo |-> D.lo, hi |-> D.hi]
           ELSE [lo |-> [i \in 1..Len(D.c) |-> D.c[i] - D.eps], hi |-> [i \in 1..Len(D.c) |-> D.c[i] + D.eps]]
InDom(D, x) == IF D.t = "box" THEN \A i \in 1..Len(x) : D.lo[i] <= x[i] /\ x[i] <= D.hi[i]
               ELSE LET e == [i \in 1..Len(x) |-> Abs(x[i] - D.c[i])] IN (IF D.p = "1" THEN SumSeq(e) ELSE MaxSeq(e)) <= D.eps
DomPts(D) == LET h == Hull(D) n == Len(h.lo) IN
             {x \in [1..n -> MinSeq(h.lo)..MaxSeq(h.hi)] : InDom(D, x)}
(* d times the supremum of an affine function over the domain: the dual norm of its coefficients for a ball *)
SupNum(D, a) ==
  IF D.t = "box" THEN a.b + SumSeq([i \in 1..Len(a.w) |-> IF a.w[i] >= 0 THEN a.w[i] * D.hi[i] ELSE a.w[i] * D.lo[i]])
  ELSE ANum(a, D.c) + D.eps * (IF D.p = "1" THEN MaxSeq([i \in 1..Len(a.w) |-> Abs(a.w[i])]) ELSE SumAbs(a.w))
InfNum(D, a) == -SupNum(D, AMul(a, -1))

(* ------------------------------------------------------- relaxations of relu ------------------------------ *)
(* a line with slope s/d and intercept t/d *)
Line(s, t, d) == [s |-> s, t |-> t, d |-> d]
UpperRelu(l, u) == IF u <= 0 THEN Line(0, 0, 1) ELSE IF l >= 0 THEN Line(1, 0, 1) ELSE Line(u, -l * u, u - l)
LowerRelu(l, u) ==      \* the admissible ones
  IF u <= 0 THEN {Line(0, 0, 1)} ELSE IF l >= 0 THEN {Line(1, 0, 1)}
  ELSE {Line(0, 0, 1), Line(1, 0, 1), Line(u, 0, u - l), Line(1, 0, 2)}
SlopeRelu(o, l, u) ==   \* the one of a slope option
  IF u <= 0 THEN Line(0, 0, 1) ELSE IF l >= 0 THEN Line(1, 0, 1)
  ELSE CASE o = "zero-lb" -> Line(0, 0, 1) [] o = "one-lb" -> Line(1, 0, 1) [] o = "same-slope" -> Line(u, 0, u - l)
         [] o = "volume-slope" -> IF u > -l THEN Line(1, 0, 1) ELSE Line(0, 0, 1)
         [] o = "adaptative-slope" -> IF 2 * u > u - l THEN Line(1, 0, 1) ELSE Line(0, 0, 1)
LineOf(ln, a) == Aff([i \in 1..Len(a.w) |-> ln.s * a.w[i]], ln.s * a.b + ln.t * a.d, ln.d * a.d)     \* slopes are never negative

(* ------------------------------------------------------- forward ------------------------------------------ *)
(* state of a layer: for every neuron the interval lo, hi and the affine functions up, dn of the input          *)
FwdInput(D) == LET h == Hull(D) n == Len(h.lo) IN
  [lo |-> h.lo, hi |-> h.hi, up |-> [k \in 1..n |-> AVar(n, k)], dn |-> [k \in 1..n |-> AVar(n, k)]]
(* the interval of the neurons: interval arithmetic (ibp), extrema of the affine functions rounded outwards      *)
(* (affine), or the best of both (hybrid)                                                                        *)
FwdDense(D, mode, st, L) ==
  LET n == Len(st.up[1].w)
      row(o) == [i \in 1..Len(L.W) |-> L.W[i][o]]
      lin(o, pos, neg) == AShift(ASum(n, [i \in 1..Len(L.W) |-> IF row(o)[i] >= 0 THEN AMul(pos[i], row(o)[i]) ELSE AMul(neg[i], row(o)[i])]), L.b[o])
      up == TLCEval([o \in 1..Len(L.b) |-> lin(o, st.up, st.dn)])
      dn == TLCEval([o \in 1..Len(L.b) |-> lin(o, st.dn, st.up)])
      ihi(o) == L.b[o] + SumSeq([i \in 1..Len(L.W) |-> IF row(o)[i] >= 0 THEN row(o)[i] * st.hi[i] ELSE row(o)[i] * st.lo[i]])
      ilo(o) == L.b[o] + SumSeq([i \in 1..Len(L.W) |-> IF row(o)[i] >= 0 THEN row(o)[i] * st.lo[i] ELSE row(o)[i] * st.hi[i]])
      ahi(o) == CeilDiv(SupNum(D, up[o]), up[o].d)
      alo(o) == InfNum(D, dn[o]) \div dn[o].d
  IN [up |-> up, dn |-> dn,
      hi |-> [o \in 1..Len(L.b) |-> CASE mode = "ibp" -> ihi(o) [] mode = "affine" -> ahi(o) [] OTHER -> Mn(ihi(o), ahi(o))],
      lo |-> [o \in 1..Len(L.b) |-> CASE mode = "ibp" -> ilo(o) [] mode = "affine" -> alo(o) [] OTHER -> Mx(ilo(o), alo(o))]]
FwdRelu(st, low) ==      \* low: the lower relaxation of every neuron
  [up |-> [k \in 1..Len(low) |-> LineOf(UpperRelu(st.lo[k], st.hi[k]), st.up[k])],
   dn |-> [k \in 1..Len(low) |-> LineOf(low[k], st.dn[k])],
   hi |-> [k \in 1..Len(low) |-> Pos(st.hi[k])], lo |-> [k \in 1..Len(low) |-> Pos(st.lo[k])]]
LowChoices(st) == {f \in [1..Len(st.lo) -> UNION {LowerRelu(st.lo[k], st.hi[k]) : k \in 1..Len(st.lo)}] :
                     \A k \in 1..Len(st.lo) : f[k] \in LowerRelu(st.lo[k], st.hi[k])}

(* ------------------------------------------------------- backward ----------------------------------------- *)
(* an affine function of the outputs of a dense layer, as a function of its inputs *)
BackDense(a, L) == Aff([i \in 1..Len(L.W) |-> SumSeq([o \in 1..Len(L.b) |-> L.W[i][o] * a.w[o]])], a.b + Dot(a.w, L.b), a.d)
(* an affine function of the outputs of the relus, bounded from above (below) by an affine function of their inputs *)
BackReluUp(a, st, low) ==
  LET n == Len(a.w)
      ln(k) == IF a.w[k] >= 0 THEN UpperRelu(st.lo[k], st.hi[k]) ELSE low[k]
      term(k) == Aff([i \in 1..n |-> IF i = k THEN a.w[k] * ln(k).s ELSE 0], a.w[k] * ln(k).t, ln(k).d)
  IN LET s == ASum(n, [k \in 1..n |-> term(k)]) IN Aff(s.w, s.b + a.b * s.d, s.d * a.d)
BackReluDn(a, st, low) == AMul(BackReluUp(AMul(a, -1), st, low), -1)

(* ------------------------------------------------------- concrete values ---------------------------------- *)
DenseVal(L, x) == [o \in 1..Len(L.b) |-> L.b[o] + SumSeq([i \in 1..Len(L.W) |-> L.W[i][o] * x[i]])]
ReluVal(x) == [k \in 1..Len(x) |-> Pos(x[k])]
(* the inputs of layer k (1: the input of the network), at x *)
RECURSIVE At(_, _, _)
At(net, k, x) == IF k = 1 THEN x ELSE ReluVal(DenseVal(net[k - 1], At(net, k - 1, x)))
Out(net, x) == DenseVal(net[Len(net)], At(net, Len(net), x))
=============================================================================
