------------------------------ MODULE Session ------------------------------
(* The life of an original network and of the networks converted from it, as a state machine.                 *)
(*                                                                                                           *)
(* Abstract state (a record st):                                                                             *)
(*   wv     the version of the weights of the original network                                               *)
(*   dom    for each conversion, its current input domain  [t: "box"] or [t: "ball", p, eps]                  *)
(*   par    for each conversion, the version of its trainable relaxation parameters (0: as converted)         *)
(*   cw     for each conversion, 0 if it shares the layers of the original network, or else the version of    *)
(*          the weights which it copied                                                                      *)
(* Steps are the public calls of the library.  Apply gives the effect of a step on the state; what a step may *)
(* reply is a function of the state only: this is the property "bounds do not depend on history".             *)
(*                                                                                                           *)
(* A scenario ("case") has the conversions convs, the versions nets of the original network, and boxes (or    *)
(* centres of balls) with sample points.                                                                     *)
EXTENDS NetSem

Box == [t |-> "box"]
Ball(p, eps) == [t |-> "ball", p |-> p, eps |-> eps]

InitState(case) ==
  [wv |-> 1,
   dom |-> [i \in 1..Len(case.convs) |-> case.convs[i].dom],
   par |-> [i \in 1..Len(case.convs) |-> 0],
   cw |-> [i \in 1..Len(case.convs) |-> IF case.convs[i].shared THEN 0 ELSE 1]]

(* a backward method converted without sharing reads the layers of the original network all the same: it is   *)
(* not used after the weights have changed                                                                    *)
Forward(m) == m \in {"forward-ibp", "forward-affine", "forward-hybrid"}
WeightsOf(st, i) == IF st.cw[i] = 0 THEN st.wv ELSE st.cw[i]
Usable(case, st, i) == i = 0 \/ st.cw[i] = 0 \/ st.cw[i] = st.wv \/ Forward(case.convs[i].m)

DomainQueries == {"noise", "advnoise"}
BoxQueries == {"range", "adv", "check", "refine"}
Queries == DomainQueries \cup BoxQueries \cup {"call", "callc"}

(* the domain a noise query works on, for the original network (i = 0) or a conversion *)
NoiseDom(case, st, s) ==
  IF s.i = 0 THEN Ball(s.p, IF s.eps < 0 THEN 0 ELSE s.eps)
  ELSE IF s.eps >= 0 THEN Ball(s.p, s.eps) ELSE st.dom[s.i]

Enabled(case, st, s) ==
  CASE s.op = "setw" -> s.v \in 1..Len(case.nets) /\ s.v # st.wv
    [] s.op = "conv" -> TRUE
    [] s.op = "setdom" -> st.dom[s.i].t = s.dom.t /\ st.dom[s.i] # s.dom
    [] s.op = "tune" -> case.convs[s.i].finetune
    [] s.op = "reset" -> case.convs[s.i].finetune /\ st.par[s.i] # 0
    [] s.op \in {"call", "callc"} -> Usable(case, st, s.i)
    [] s.op \in BoxQueries -> Usable(case, st, s.i) /\ (s.i = 0 \/ st.dom[s.i].t = "box")
    [] s.op \in DomainQueries -> Usable(case, st, s.i) /\ (s.i = 0 \/ st.dom[s.i].t = "ball")

(* the effect of a step on the abstract state *)
Apply(case, st, s) ==
  CASE s.op = "setw" -> [st EXCEPT !.wv = s.v]
    [] s.op = "conv" -> [st EXCEPT !.dom[s.i] = case.convs[s.i].dom, !.par[s.i] = 0,
                                   !.cw[s.i] = IF case.convs[s.i].shared THEN 0 ELSE st.wv]
    [] s.op = "setdom" -> [st EXCEPT !.dom[s.i] = s.dom]
    [] s.op = "tune" -> [st EXCEPT !.par[s.i] = s.a]
    [] s.op = "reset" -> [st EXCEPT !.par[s.i] = 0]
    [] s.op \in DomainQueries -> IF s.i = 0 THEN st ELSE [st EXCEPT !.dom[s.i] = NoiseDom(case, st, s)]
    [] OTHER -> st

(* every history of n steps drawn from an alphabet, from a state: the paths of the state graph *)
RECURSIVE Paths(_, _, _, _)
Paths(case, st, alphabet, n) ==
  IF n = 0 THEN <<<<>>>>
  ELSE FlattenSeq([k \in 1..Len(alphabet) |->
         IF ~Enabled(case, st, alphabet[k]) THEN <<>>
         ELSE LET rest == Paths(case, Apply(case, st, alphabet[k]), alphabet, n - 1)
              IN [q \in 1..Len(rest) |-> <<alphabet[k]>> \o rest[q]]])

(* the states met along a history: states[k] is the state in which step k is run *)
StatesAlong(case, hist) ==
  FoldLeft(LAMBDA acc, s : Append(acc, Apply(case, acc[Len(acc)], s)), <<InitState(case)>>, hist)
=============================================================================
