-------------------------------- MODULE Num --------------------------------
(* Integer helpers shared by every module: sums, extrema, dot products, floor division and a small          *)
(* pseudo-random generator used to draw weights, boxes and sample points inside the specification.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Mx(a, b) == IF a >= b THEN a ELSE b
Mn(a, b) == IF a <= b THEN a ELSE b
Pos(a) == IF a > 0 THEN a ELSE 0
Neg(a) == IF a < 0 THEN a ELSE 0

SumSeq(s) == FoldLeft(LAMBDA acc, v : acc + v, 0, s)
SumAbs(s) == FoldLeft(LAMBDA acc, v : acc + Abs(v), 0, s)
MaxSeq(s) == FoldLeft(LAMBDA acc, v : Mx(acc, v), s[1], s)
MinSeq(s) == FoldLeft(LAMBDA acc, v : Mn(acc, v), s[1], s)
MaxAbs(s) == FoldLeft(LAMBDA acc, v : Mx(acc, Abs(v)), 0, s)
ProdSeq(s) == FoldLeft(LAMBDA acc, v : acc * v, 1, s)
Dot(a, b) == FoldLeftDomain(LAMBDA acc, i : acc + a[i] * b[i], 0, a)

\* extrema of f[i] over i in 1..n, for an operator f
MaxOver(n, f(_)) == MaxSeq([i \in 1..n |-> f(i)])
MinOver(n, f(_)) == MinSeq([i \in 1..n |-> f(i)])
SumOver(n, f(_)) == SumSeq([i \in 1..n |-> f(i)])

CeilDiv(a, b) == -((-a) \div b)

(* integer square root *)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo      \* lo^2 <= n < hi^2
                      ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m)
ISqrt(n) == ISqrtIn(n, 0, 46340)
Pow2(n) == 2 ^ n

(* Pseudo-random integers.  s is a seed below 32749, k a counter. *)
Mix(s, k) ==
  LET a == (s * 7477 + k * 2689 + 12345) % 32749
      b == (a * a + 31 * a + k) % 32719
      c == (b * 1103 + s * 17 + 5) % 32717
  IN (c * c + b) % 32713
Seed(s, k) == Mix(s % 32749, k) % 32749
RndIn(s, k, lo, hi) == lo + (Mix(s, k) % (hi - lo + 1))
RndOf(s, k, q) == q[1 + (Mix(s, k) % Len(q))]
=============================================================================
