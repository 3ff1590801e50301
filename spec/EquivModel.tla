----------------------------- MODULE EquivModel -----------------------------
(* Every rewriting of small networks, up to a number of steps: the function, its interval propagation and the   *)
(* places where it is affine are those of the first description.                                               *)
EXTENDS Equiv
CONSTANT Steps
VARIABLES first, net, steps
Firsts == {Styled(EqNet(Seed(77, c), c)) : c \in {1, 2, 5, 6, 7}} \cup
          {Styled(Net(2, <<InN, DenseN(0, 2, 4, "relu", 5), ReshapeN(1, <<2, 2>>), PermuteN(2, <<2, 1>>), FlattenN(3, "channels_last"), DenseN(4, 4, 1, "relu", 9)>>))}
Firsts0 == {[f EXCEPT !.nodes = NoSoftmax(f).nodes] : f \in Firsts}
Init == first \in Firsts0 /\ net = first /\ steps = 0
Go(n) == net' = n /\ steps' = steps + 1 /\ UNCHANGED first
Next == /\ steps < Steps
        /\ \/ \E k \in 2..Len(net.nodes) : CanSplit(net, k) /\ Go(SplitAct(net, k))
           \/ \E a, b \in 2..Len(net.nodes) : CanNest(net, a, b) /\ Go(Nest(net, a, b, "fun"))
           \/ IsChain(net) /\ Go(Sequential(net))
           \/ \E k \in 1..Len(net.nodes) : \E s \in 0..3 : Go(InsertAfter(net, k, Inserted(net, k, s)))
Spec == Init /\ [][Next]_<<first, net, steps>>
Bx == LET b == EqBox(3, first.nin) IN b
Same == LET p == Plan(net, 16) q == Plan(first, 16) IN
        /\ p.den = q.den
        /\ \A x \in {Bx.lo, Bx.hi, [i \in 1..first.nin |-> (Bx.lo[i] + Bx.hi[i]) \div 2]} : Eval(p, x) = Eval(q, x)
        /\ IEval(p, Bx) = IEval(q, Bx)
        /\ AffineOn(p, Bx) = AffineOn(q, Bx)
=============================================================================
