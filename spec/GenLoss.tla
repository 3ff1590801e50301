------------------------------ MODULE GenLoss ------------------------------
(* Scenarios for the certified losses: a classifier, a domain, conversions, reference values and labels.        *)
EXTENDS Gen, Json, IOUtils
seed == atoi(IOEnv.SEED)

RefVec(s, no) == [o \in 1..no |-> RndIn(s, o, -96, 96)]       \* over XDEN
(* the outputs of half of the classifiers are small: softmax and sigmoid are not saturated *)
Damped(net) == [net EXCEPT !.nodes[Len(net.nodes)].wden = 8]
LossRuns(i) == [q \in 1..Len(AllMethods) |-> Run(AllMethods[q], SlopesAll[1 + ((i + q) % 5)], Forms[1 + ((i + q + i \div 3) % 4)])]
LossCases(num) ==
  [i \in 1..num |->
     LET s == Seed(seed, 7000 + i)
         nin == RndIn(s, 1, 1, 3) no == RndIn(s, 2, 2, 4)
         net0 == ClassNet(s, nin, 1 + (i % 2), no, IF i % 3 = 0 THEN "linear" ELSE "relu")
         net == IF Mix(s, 3) % 2 = 0 THEN Damped(net0) ELSE net0
         ball == i % 4 = 1
         p == <<"1", "2", "inf">>[1 + ((i \div 4) % 3)]
         ctr == [b \in 1..4 |-> [q \in 1..nin |-> 4 * RndIn(Seed(s, b), q, -6, 6)]]
         id == "loss" \o ToString(i)
         base == IF ball THEN BallCase(id, "loss", net, ctr, RndOf(s, 5, <<5, 10, 20>>), p, s, LossRuns(i), Both)
                 ELSE Case(id, "loss", net, Boxes(s, nin, SomeStyles(s)), s, LossRuns(i), Both)
     IN base @@ [refs |-> [b \in 1..4 |-> RefVec(Seed(s, 60 + b), no)], labels |-> [b \in 1..4 |-> Mix(s, 90 + b) % no]]]

AllCases == LossCases(atoi(IOEnv.N_LOSS))
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = JsonSerialize(IOEnv.OUT, AllCases)
Spec == Init /\ [][Next]_done
=============================================================================
