------------------------------- MODULE Equiv -------------------------------
(* Rewritings of the description of a network which do not change the layers it applies, as a state machine:   *)
(* the state is a description, a step is one rewriting, and the function computed is invariant.                 *)
EXTENDS Gen

Reindex(nd, f(_)) ==
  LET a == [nd EXCEPT !["in"] = [q \in 1..Len(nd["in"]) |-> f(nd["in"][q])]]
  IN IF "share" \in DOMAIN nd THEN [a EXCEPT !.share = f(nd.share)] ELSE a
Outs(nodes, net) == [net EXCEPT !.nodes = nodes, !.outs = <<Len(nodes) - 1>>]
(* a new node reads node k and is read in its place *)
InsertAfter(net, k, nd) ==
  LET sh(i) == IF i >= k - 1 THEN i + 1 ELSE i IN
  Outs(SubSeq(net.nodes, 1, k) \o <<[nd EXCEPT !["in"] = <<k - 1>>]>>
       \o [q \in 1..(Len(net.nodes) - k) |-> Reindex(net.nodes[k + q], sh)], net)
ActOf(nd) == Get(nd, "act", "none")
Shared(net, k) == "share" \in DOMAIN net.nodes[k] \/ \E q \in 1..Len(net.nodes) : Get(net.nodes[q], "share", 0) = k - 1
CanSplit(net, k) == k > 1 /\ ActOf(net.nodes[k]) \notin {"none", "softmax"} /\ ~Shared(net, k)
SplitAct(net, k) == InsertAfter([net EXCEPT !.nodes[k].act = "none"], k, ActN(0, ActOf(net.nodes[k])))
IsChain(net) == \A k \in 2..Len(net.nodes) : net.nodes[k]["in"] = <<k - 2>>
Flat(net, k) == Len(Shapes(net)[k]) = 1
CanNest(net, a, b) == IsChain(net) /\ 1 < a /\ a <= b /\ Flat(net, a - 1) /\ Flat(net, b)
Nest(net, a, b, style) ==
  LET shs == Shapes(net)
      sub == [nin |-> shs[a - 1][1], outs |-> <<b - a + 1>>, style |-> style,
              nodes |-> <<InN>> \o [q \in 1..(b - a + 1) |-> Reindex(net.nodes[a + q - 1], LAMBDA i : i - (a - 2))]]
  IN Outs(SubSeq(net.nodes, 1, a - 1) \o <<ModelN(a - 2, sub, shs[b][1])>>
          \o [q \in 1..(Len(net.nodes) - b) |-> Reindex(net.nodes[b + q], LAMBDA i : i - (b - a))], net)
Sequential(net) == [net EXCEPT !.style = "seq"]

Inserted(net, k, s) ==
  LET sh == Shapes(net)[k] IN
  CASE s % 5 = 0 -> DropN(0) [] s % 5 = 1 -> ActN(0, "linear") [] s % 5 = 2 -> ReshapeN(0, sh)
    [] s % 5 = 3 /\ Len(sh) = 1 -> FlattenN(0, "channels_last") [] OTHER -> ActN(0, "linear")
(* one step of rewriting, drawn from s (the description itself where the step does not apply) *)
Rewrite(net, s) ==
  LET n == Len(net.nodes)
      k == 2 + (Mix(s, 1) % (n - 1))
      sp == {q \in 1..n : CanSplit(net, q)}
      a == 2 + (Mix(s, 2) % (n - 1)) b == a + (Mix(s, 3) % (n - a + 1))
      m == Mix(s, 4) % 6
  IN CASE m \in {0, 1} /\ sp # {} -> LET q == SetToSeq(sp)[1 + (Mix(s, 5) % Cardinality(sp))] IN SplitAct(net, q)
       [] m \in {2, 3} /\ CanNest(net, a, b) -> Nest(net, a, b, IF Mix(s, 6) % 2 = 0 THEN "seq" ELSE "fun")
       [] m = 4 /\ IsChain(net) -> Sequential(net)
       [] m = 5 /\ ActOf(net.nodes[k]) = "none" /\ net.nodes[k].op \in {"dense", "conv"} /\ ~Shared(net, k) -> [net EXCEPT !.nodes[k].act = "linear"]
       [] OTHER -> InsertAfter(net, IF k = n /\ Mix(s, 7) % 2 = 0 THEN 1 ELSE k, Inserted(net, k, Mix(s, 8)))
RECURSIVE Rewritten(_, _, _)
Rewritten(net, s, steps) == IF steps = 0 THEN net ELSE Rewritten(TLCEval(Rewrite(net, Seed(s, steps))), s, steps - 1)

(* ------------------------------------------------------------ the cases ---------------------------------- *)
Styled(net) == net @@ [style |-> "fun"]
EqNet(s, c) ==
  LET nin == 1 + (c % 3) IN
  CASE c % 8 = 0 -> GeoNet(<<ConvN(2, 2, 2, <<2, 2>>, <<1, 1>>, "valid", <<1, 1>>, "channels_last", "relu", TRUE, s)>>, <<3, 3, 2>>, "channels_last", TRUE, s)
    [] c % 8 = 1 -> Net(2, <<InN, DenseN(0, 2, 3, "relu", s), BnN(1, 3, -1, TRUE, TRUE, s), DenseN(2, 3, 2, "relu", s + 1), DenseN(3, 2, 2, "none", s + 3)>>)
    [] c % 8 = 2 -> Net(2, <<InN, DenseN(0, 2, 3, "relu", s), DenseN(1, 3, 3, "relu", s + 1), MergeN(RndOf(s, 1, <<"add", "sub", "max", "mul", "avg", "concat">>), <<1, 2>>),
                             DenseN(3, IF RndOf(s, 1, <<"add", "sub", "max", "mul", "avg", "concat">>) = "concat" THEN 6 ELSE 3, 2, "relu", s + 2)>>)
    [] c % 8 = 3 -> Mlp(s, nin, 2, RndOf(s, 2, <<"sigmoid", "tanh", "softplus", "softsign">>))
    [] c % 8 = 4 -> GeoNet(<<PermuteN(2, RndOf(s, 1, Perms)), ActN(3, "relu")>>, <<2, 3, 2>>, "channels_last", TRUE, s)
    [] OTHER -> Mlp(s, nin, 1 + (c % 3), "relu")
EqMeths(net) == IF HasOp(net, {"add", "sub", "max", "mul", "avg", "concat", "min"}) THEN FwdMethods ELSE AllMethods
(* corners without symmetries, so that no choice of a relaxation depends on rounding *)
EqBox(s, n) ==
  LET r(i) == RndIn(s, 50 + i, 5, 40) c(i) == RndIn(s, i, -60, 60) IN
  [lo |-> [i \in 1..n |-> c(i) - r(i)], hi |-> [i \in 1..n |-> c(i) + r(i) + 3]]
EqRuns(meths, sl, i) ==
  FlattenSeq([q \in 1..Len(meths) |->
     <<Run(meths[q], sl[1 + ((i + q) % Len(sl))], "TT"), Run(meths[q], sl[1 + ((i + q + 2) % Len(sl))], <<"default", "TF", "FT">>[1 + (Mix(i, q) % 3)])>>])
NoSoftmax(net) == [net EXCEPT !.nodes = [k \in 1..Len(net.nodes) |-> IF ActOf(net.nodes[k]) = "softmax" THEN [net.nodes[k] EXCEPT !.act = "none"] ELSE net.nodes[k]]]
EquivCases(seed, num, nvar) ==
  [c \in 1..num |->
     LET s == Seed(seed, 6000 + c)
         net == Styled(NoSoftmax(EqNet(s, c)))
         bx == [b \in 1..4 |-> EqBox(Seed(s, 70 + b), net.nin)]
         ball == c % 5 = 4
         cs == [b \in 1..4 |-> [i \in 1..net.nin |-> RndIn(Seed(s, 80 + b), i, -60, 60)]]
         sl == IF HasFn(net, {"softplus"}) THEN SubSeq(SlopesAll, 1, 4) ELSE SlopesAll
         runs == EqRuns(EqMeths(net), sl, c)
         base == IF ball THEN BallCase("eq" \o ToString(c), "equiv", net, cs, RndOf(s, 6, <<5, 10, 25>>), RndOf(s, 7, <<"1", "2", "inf">>), s, runs, Both)
                 ELSE Case("eq" \o ToString(c), "equiv", net, bx, s, runs, Both)
         chain == IF IsChain(net) THEN <<Sequential(net)>> ELSE <<>>
     IN base @@ [variants |-> <<net>> \o chain \o [v \in 1..nvar |-> Rewritten(net, Seed(s, 900 + v), 1 + (v % 4))]]]
=============================================================================
