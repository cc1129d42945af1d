----------------------------- MODULE MPSAbstract -----------------------------
(***************************************************************************)
(* What every run keeps, whatever the physics does: an abstraction of      *)
(* MPSMachine in which the particles may move in any way they are allowed  *)
(* to at all.  Positions and velocities are arbitrary values; outside is the  *)
(* set of particles whose position lies outside of the domain.             *)
(*                                                                         *)
(* MPSMachine refines this module (checked by TLC in MPSLaws), its         *)
(* theorems hold for any number of particles and any domain (proved with   *)
(* TLAPS in MPSAbstractProofs), and MPSHistory holds recorded runs of the  *)
(* program against it.                                                     *)
(***************************************************************************)
VARIABLES type, ft, rho, x, v,   \* the particles
          outside,               \* those that lie outside of the domain
          warned                 \* those reported to have left the domain, since the start

avars == <<type, ft, rho, x, v, outside, warned>>

Ids == DOMAIN type

AGhost == 0
AFluid == 1
AWall  == 2
ADummy == 3

Types == {AGhost, AFluid, AWall, ADummy}

\* (x, v, ft and rho have values of any kind)
AInit == /\ \A i \in Ids : type[i] \in Types
         /\ outside \subseteq Ids
         /\ warned = {}

\* Everybody who is out of the domain is taken out of the simulation, and reported.
TakeOut ==
    LET out == {i \in outside : type[i] # AGhost}
    IN /\ type' = [i \in Ids |-> IF i \in out THEN AGhost ELSE type[i]]
       /\ warned' = warned \cup out
       /\ UNCHANGED <<ft, rho, x, v, outside>>

\* Fluid particles move; nobody else does.
Move ==
    /\ \A i \in Ids : type[i] # AFluid => x'[i] = x[i] /\ v'[i] = v[i] /\ (i \in outside' <=> i \in outside)
    /\ outside' \subseteq Ids
    /\ UNCHANGED <<type, ft, rho, warned>>

ANext == TakeOut \/ Move
ASpec == AInit /\ [][ANext]_avars

-----------------------------------------------------------------------------
\* C03
AWallsStay == [][\A i \in Ids : type[i] \in {AWall, ADummy} => x'[i] = x[i] /\ v'[i] = v[i]]_avars
\* C02
AGhostsStay == [][\A i \in Ids : type[i] = AGhost => type'[i] = AGhost /\ x'[i] = x[i] /\ v'[i] = v[i]]_avars
\* C04
AIdentity == [][/\ ft' = ft /\ rho' = rho
                /\ \A i \in Ids : type'[i] \in {type[i], AGhost}]_avars
\* C02: reported exactly when taken out, and only from outside
AReported == [][\A i \in Ids : /\ (type[i] # AGhost /\ type'[i] = AGhost) <=> (i \in warned' /\ i \notin warned)
                               /\ i \in warned => i \in warned'
                               /\ (type[i] # AGhost /\ type'[i] = AGhost) => i \in outside]_avars
AWarnedAreGhosts == \A i \in warned : type[i] = AGhost
ATypeOK == (\A i \in Ids : type[i] \in Types) /\ warned \subseteq Ids /\ outside \subseteq Ids
=============================================================================
