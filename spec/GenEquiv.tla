------------------------------ MODULE GenEquiv ------------------------------
(* Writes groups of descriptions of one network, obtained by rewriting. *)
EXTENDS Equiv, Json, IOUtils
seed == atoi(IOEnv.SEED)
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = JsonSerialize(IOEnv.OUT, EquivCases(seed, atoi(IOEnv.N_EQUIV), atoi(IOEnv.N_VAR)))
Spec == Init /\ [][Next]_done
=============================================================================
