------------------------------- MODULE GenSub -------------------------------
(* Refinements to replay: boxes apart from each other, numbers of parts, and the queries which refine them.       *)
EXTENDS Gen, Json, IOUtils
seed == atoi(IOEnv.SEED)

(* sides, in sixteenths: equal or not, reduced to a point, very long *)
SideOf(s, i, style) ==
  CASE style = 0 -> 4 * RndIn(s, i, 1, 12)
    [] style = 1 -> 0
    [] style = 2 -> IF i = 1 + (Mix(s, 3) % 2) THEN 0 ELSE 4 * RndIn(s, i, 1, 12)
    [] style = 3 -> 16                                       \* all equal
    [] style = 4 -> IF i = 1 + (Mix(s, 3) % 3) THEN 160 ELSE 4
    [] style = 5 -> 4 * RndIn(s, i, 1, 2)
(* the boxes of a scenario are pairwise apart, along the first dimension *)
ApartBoxes(s, n, nb) ==
  [b \in 1..nb |->
     LET st == Mix(s, 7 * b) % 6
         lo == [i \in 1..n |-> (IF i = 1 THEN 200 * (b - 2) ELSE 0) + 4 * RndIn(Seed(s, b), 40 + i, -4, 4)]
     IN [lo |-> lo, hi |-> [i \in 1..n |-> lo[i] + SideOf(Seed(s, b), i, st)]]]
ShapesOf(n) == CASE n = 1 -> <<<<1>>>> [] n = 2 -> <<<<2>>, <<2, 1>>, <<1, 2>>>> [] n = 3 -> <<<<3>>, <<3, 1>>>> [] OTHER -> <<<<4>>, <<2, 2>>, <<1, 4>>, <<2, 1, 2>>>>
PartsCases(num) ==
  [c \in 1..num |->
     LET s == Seed(seed, 6000 + c)
         n == 1 + (c % 4)
         ns == IF n < 3 THEN 33 ELSE 17
     IN [id |-> "parts" \o ToString(c), kind |-> "parts", dim |-> n, shape |-> RndOf(s, 1, ShapesOf(n)), boxes |-> ApartBoxes(s, n, RndIn(s, 2, 1, 3)),
         asked |-> <<1, 2, 3, 4, RndIn(s, 3, 5, 9), RndIn(s, 4, 1, ns)>>, be |-> Both, net |-> [nin |-> 0], steps |-> <<>>]]
(* queries *)
QueryOf(s, nb, no) ==
  LET k == Mix(s, 1) % 4
      lab == [q \in 1..nb |-> Mix(s, 20 + q) % no]
      bs == RndOf(s, 2, <<-1, -1, 1, 2, 3>>)
  IN CASE k = 0 -> [op |-> "range", fn |-> RndOf(s, 3, <<"range", "upper", "lower">>), nsub |-> RndIn(s, 4, 1, 9), bs |-> bs, lab |-> lab, random |-> FALSE, rs |-> 0]
       [] k = 1 -> [op |-> "adv", fn |-> "adv", nsub |-> RndIn(s, 4, 1, 9), bs |-> bs, lab |-> lab, random |-> FALSE, rs |-> 0]
       [] OTHER -> [op |-> "refine", fn |-> RndOf(s, 3, <<"upper", "lower", "adv", "check">>), nsub |-> RndIn(s, 4, 1, 9), bs |-> bs, lab |-> lab,
                    random |-> Mix(s, 5) % 2 = 0, rs |-> Mix(s, 6) % 1000]
QueryCases(num) ==
  [c \in 1..num |->
     LET s == Seed(seed, 6300 + c)
         n == 1 + (c % 3)
         nb == RndIn(s, 2, 1, 3)
     IN [id |-> "query" \o ToString(c), kind |-> "query", dim |-> n, shape |-> <<n>>, boxes |-> ApartBoxes(s, n, nb), asked |-> <<>>, be |-> Both,
         net |-> Net(n, <<InN, DenseN(0, n, 3, "relu", s), DenseN(1, 3, 3, "none", s + 1)>>),
         steps |-> [k \in 1..6 |-> QueryOf(Seed(s, k), nb, 3)]]]

N(k) == atoi(IOEnv["N_" \o k])
Fam(k, F(_)) == IF ("N_" \o k) \in DOMAIN IOEnv THEN F(N(k)) ELSE <<>>
AllCases == Fam("PARTS", LAMBDA n : PartsCases(n)) \o Fam("QUERY", LAMBDA n : QueryCases(n))
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = JsonSerialize(IOEnv.OUT, AllCases)
Spec == Init /\ [][Next]_done
=============================================================================
