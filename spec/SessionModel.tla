---------------------------- MODULE SessionModel ----------------------------
(* The state machine of Session.tla refined by what the library holds: every layer of a converted network keeps its   *)
(* own copy of the input domain (the layers computing the bounds of the input, the decomon layers and the              *)
(* conversions of the form of the bounds read different copies), forward layers hold the variables of the original     *)
(* layers or copies of them, trainable relaxations are variables, and the preprocessing of a conversion replaces        *)
(* layers by copies.  In every reachable state, what a query reads is a function of the abstract state only, the        *)
(* original network is intact, and replies are repeatable.  The whole state graph is explored.                         *)
EXTENDS Session
CONSTANTS Versions, Steps
VersionsDef == <<1, 2, 3>>
(* two conversions: one sharing the layers of the original network, one fine-tuned with copies of the weights; over     *)
(* boxes (t = "box") or balls                                                                                          *)
Case(t, m1, m2) ==
  LET d == IF t = "box" THEN Box ELSE Ball("2", 1)
      cv(m, ft, sh) == [m |-> m, slope |-> "volume-slope", form |-> "TT", finetune |-> ft, shared |-> sh, dom |-> d, spec |-> FALSE]
  IN [convs |-> <<cv(m1, FALSE, TRUE), cv(m2, TRUE, FALSE)>>, nets |-> Versions,
      doms |-> IF t = "box" THEN <<Box>> ELSE <<Ball("2", 1), Ball("1", 1), Ball("2", 2), Ball("inf", 2)>>]
Cases == {Case("box", "crown", "forward-ibp"), Case("ball", "forward-hybrid", "forward-affine"), Case("ball", "crown-forward-ibp", "forward-hybrid")}
VARIABLES case, st, impl, orig, reply, n
vars == <<case, st, impl, orig, reply, n>>
(* impl[i]: the copies of the domain in the model, in the layers of the input, in the other layers, in the mode          *)
(* conversions; the weights of the layers ("ref": read from the original network); the trainable parameters              *)
Copies == {"model", "input", "layer", "convert"}
Fresh(cs, i, w) == [dom |-> [c \in Copies |-> cs.convs[i].dom], w |-> IF cs.convs[i].shared THEN 0 ELSE w, par |-> 0,
                    read |-> IF Forward(cs.convs[i].m) THEN "own" ELSE "orig"]      \* backward layers read the original layers
Original == [w |-> 1, act |-> "softmax", trainable |-> TRUE]
Init == /\ case \in Cases /\ st = InitState(case) /\ orig = Original
        /\ impl = [i \in 1..2 |-> Fresh(case, i, 1)] /\ reply = <<>> /\ n = 0
WeightsRead(i) == IF impl[i].w = 0 \/ impl[i].read = "orig" THEN orig.w ELSE impl[i].w
(* what a call computes: the domain as read by each kind of layer, the weights, the parameters *)
Reads(i) == <<impl[i].dom["input"], impl[i].dom["layer"], impl[i].dom["convert"], WeightsRead(i), impl[i].par>>
Expected(s, i) == <<s.dom[i], s.dom[i], s.dom[i], WeightsOf(s, i), s.par[i]>>
SetAll(i, d) == [impl EXCEPT ![i].dom = [c \in Copies |-> d]]
Do(step) ==
  /\ n < Steps /\ Enabled(case, st, step) = TRUE
  /\ st' = Apply(case, st, step) /\ n' = n + 1 /\ UNCHANGED case
  /\ CASE step.op = "setw" -> orig' = [orig EXCEPT !.w = step.v] /\ UNCHANGED impl /\ reply' = <<>>
       [] step.op = "conv" -> /\ impl' = [impl EXCEPT ![step.i] = Fresh(case, step.i, orig.w)]
                              /\ UNCHANGED orig /\ reply' = <<>>      \* the softmax is replaced in a copy of the layer
       [] step.op = "setdom" -> impl' = SetAll(step.i, step.dom) /\ UNCHANGED orig /\ reply' = <<>>
       [] step.op = "tune" -> impl' = [impl EXCEPT ![step.i].par = step.a] /\ UNCHANGED orig /\ reply' = <<>>
       [] step.op = "reset" -> impl' = [impl EXCEPT ![step.i].par = 0] /\ UNCHANGED orig /\ reply' = <<>>
       [] step.op = "noise" -> /\ impl' = IF step.i = 0 THEN impl ELSE SetAll(step.i, NoiseDom(case, st, step))
                               /\ UNCHANGED orig
                               /\ reply' = IF step.i = 0 THEN <<>> ELSE <<step.i, [Reads(step.i) EXCEPT ![1] = impl'[step.i].dom["input"],
                                                    ![2] = impl'[step.i].dom["layer"], ![3] = impl'[step.i].dom["convert"]]>>
       [] OTHER -> UNCHANGED <<impl, orig>> /\ reply' = <<step.i, Reads(step.i)>>
Alphabet ==
  LET doms == {case.doms[q] : q \in 1..Len(case.doms)} IN
  {[op |-> "setw", v |-> v] : v \in 1..Len(Versions)} \cup {[op |-> "conv", i |-> i] : i \in 1..2}
  \cup {[op |-> "setdom", i |-> i, dom |-> d] : i \in 1..2, d \in doms} \cup {[op |-> "tune", i |-> 2, a |-> a] : a \in {1, 2}}
  \cup {[op |-> "reset", i |-> 2]} \cup {[op |-> "call", i |-> i] : i \in 1..2} \cup {[op |-> "range", i |-> i] : i \in 1..2}
  \cup {[op |-> "noise", i |-> i, p |-> p, eps |-> e] : i \in 0..2, p \in {"1", "2"}, e \in {-1, 2}}
Next == \E s \in Alphabet : Do(s)
Spec == Init /\ [][Next]_vars
View == <<case, st, impl, orig, reply>>
(* --------------------------------------------------------- properties ------------------------------------- *)
(* C18, C13: whatever the history, a query reads the current domain, weights and parameters *)
Refines == \A i \in 1..2 : Usable(case, st, i) => Reads(i) = Expected(st, i)
Replied == reply # <<>> => (Usable(case, st, reply[1]) => reply[2] = Expected(st, reply[1]))
OneDomain == \A i \in 1..2 : \A c \in Copies : impl[i].dom[c] = st.dom[i]
(* C14: conversions and queries leave the original network intact; its weights are those last set *)
Intact == orig = [Original EXCEPT !.w = st.wv]
Follows == \A i \in 1..2 : case.convs[i].shared => WeightsRead(i) = orig.w
(* C15: resetting gives the parameters of a fresh conversion *)
ResetFresh == \A i \in 1..2 : st.par[i] = 0 => impl[i].par = 0
=============================================================================
