-------------------------- MODULE MPSAbstractProofs --------------------------
(***************************************************************************)
(* The guarantees of MPSAbstract hold for any number of particles and any  *)
(* domain: checked by TLAPS (bin/prove).                                   *)
(***************************************************************************)
EXTENDS MPSAbstract, TLAPS

AInv == ATypeOK /\ AWarnedAreGhosts

THEOREM Invariant == ASpec => []AInv
<1>1. AInit => AInv
  BY DEF AInit, AInv, ATypeOK, AWarnedAreGhosts
<1>2. AInv /\ [ANext]_avars => AInv'
  BY DEF AInv, ATypeOK, AWarnedAreGhosts, ANext, TakeOut, Move, avars, Ids, Types, AGhost, AFluid, AWall, ADummy
<1> QED BY <1>1, <1>2, PTL DEF ASpec

THEOREM Walls == ASpec => AWallsStay
<1>1. [ANext]_avars => [\A i \in Ids : type[i] \in {AWall, ADummy} => x'[i] = x[i] /\ v'[i] = v[i]]_avars
  BY DEF ANext, TakeOut, Move, avars, Ids, AGhost, AFluid, AWall, ADummy
<1> QED BY <1>1, PTL DEF ASpec, AWallsStay

THEOREM Ghosts == ASpec => AGhostsStay
<1>1. [ANext]_avars => [\A i \in Ids : type[i] = AGhost => type'[i] = AGhost /\ x'[i] = x[i] /\ v'[i] = v[i]]_avars
  BY DEF ANext, TakeOut, Move, avars, Ids, AGhost, AFluid, AWall, ADummy
<1> QED BY <1>1, PTL DEF ASpec, AGhostsStay

THEOREM Identity == ASpec => AIdentity
<1>1. [ANext]_avars => [/\ ft' = ft /\ rho' = rho
                        /\ \A i \in Ids : type'[i] \in {type[i], AGhost}]_avars
  BY DEF ANext, TakeOut, Move, avars, Ids
<1> QED BY <1>1, PTL DEF ASpec, AIdentity

THEOREM Reported == ASpec => AReported
<1>1. AInv /\ [ANext]_avars => [\A i \in Ids :
          /\ (type[i] # AGhost /\ type'[i] = AGhost) <=> (i \in warned' /\ i \notin warned)
          /\ i \in warned => i \in warned'
          /\ (type[i] # AGhost /\ type'[i] = AGhost) => i \in outside]_avars
  BY DEF AInv, AWarnedAreGhosts, ATypeOK, ANext, TakeOut, Move, avars, Ids
<1> QED BY <1>1, Invariant, PTL DEF ASpec, AReported
=============================================================================
