------------------------------- MODULE GenRun -------------------------------
(* Writes the scenarios of the requested families (environment: FAMS, SEED, NUM, OUT). *)
EXTENDS Gen, Json, IOUtils
seed == atoi(IOEnv.SEED)
N(k) == atoi(IOEnv["N_" \o k])
Want(k) == ("N_" \o k) \in DOMAIN IOEnv
Fam(k, F(_)) == IF Want(k) THEN F(N(k)) ELSE <<>>
AllCases ==
  Fam("MLP", LAMBDA n : MlpCases(seed, n)) \o Fam("AFF", LAMBDA n : AffineCases(seed, n))
  \o Fam("AFFGEO", LAMBDA n : AffineGeoCases(seed, n))
  \o Fam("ACT", LAMBDA n : ActCases(seed, n)) \o Fam("CONV", LAMBDA n : ConvCases(seed, n))
  \o Fam("POOL", LAMBDA n : PoolCases(seed, n)) \o Fam("GEO", LAMBDA n : MiscGeo(seed))
  \o Fam("MERGE", LAMBDA n : MergeCases(seed)) \o Fam("NEST", LAMBDA n : NestCases(seed) \o ChainCases(seed))
  \o Fam("GROW", LAMBDA n : GrowCases(seed, n)) \o Fam("MAPS", LAMBDA n : MapCases(seed, n))
  \o Fam("MONO", LAMBDA n : MonoCases(seed, n)) \o Fam("FORM", LAMBDA n : FormCases(seed, n))
  \o Fam("KEEP", LAMBDA n : KeepCases(seed, n))
  \o Fam("BALL", LAMBDA n : BallCases(seed, n))
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = JsonSerialize(IOEnv.OUT, AllCases)
Spec == Init /\ [][Next]_done
=============================================================================
