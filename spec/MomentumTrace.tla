---------------------------- MODULE MomentumTrace ----------------------------
(***************************************************************************)
(* Conservation (property C23) in recorded runs of fluid particles, far    *)
(* from everything else and without pressure.  Nothing here depends on the *)
(* order in which collisions are handled.                                  *)
(*   Run.what: "viscosity" (any densities; no collisions),                 *)
(*             "collisions" (no viscosity),                                *)
(*             "both" (all densities equal)                                *)
(***************************************************************************)
EXTENDS TraceCommon

mtvars == <<run, k>>
TInit == run \in 1..Len(Runs) /\ k = 2
TNext == \/ Shaped[run] /\ k <= Len(Run.snaps) /\ k' = k + 1 /\ UNCHANGED run
         \/ /\ ~Shaped[run] \/ k = Len(Run.snaps) + 1
            /\ k' = Len(Run.snaps) + 3 /\ UNCHANGED run
            /\ k <= Len(Run.snaps) + 1
            /\ PrintT(<<"TALLY", run, Run.name, [steps |-> Len(Run.snaps) - 1, particles |-> N,
                   collided |-> IF Run.what # "viscosity" /\ Shaped[run] /\ Run.snaps[1].v # Run.snaps[Len(Run.snaps)].v THEN 1 ELSE 0]>>)
TSpec == TInit /\ [][TNext]_mtvars

At == Shaped[run] /\ k <= Len(Run.snaps)
Dt == Run.set["dt"]
Rho == RhoOf(Run)
G == Gravity(Run.set)

Sum(F(_)) == VSum([i \in 1..N |-> F(i)])
Size(F(_)) == RSum([i \in 1..N |-> VNorm(F(i))])
VEq(u, w, scale) == \A d \in 1..3 : RAbs(u[d] (-) w[d]) \preceq (R("1e-10") (.) scale)

\* Everybody is fluid and stays so
OnlyFluid == At => \A i \in 1..N : Snap.type[i] = Fluid

MomentumKept == At =>
    LET Mass(i) == IF Run.what = "viscosity" THEN One ELSE Rho[i]
        Old(i) == VScale(Mass(i), VAdd(Prev.v[i], VScale(Dt, G)))
        New(i) == VScale(Mass(i), Snap.v[i])
    IN VEq(Sum(New), Sum(Old), Size(New) (+) Size(Old))

\* The centre of mass moves with the mean velocity, whoever pushes whom.
CentreKept == At /\ Run.what # "viscosity" =>
    LET Old(i) == VScale(Rho[i], VAdd(Prev.x[i], VScale(Dt, VAdd(Prev.v[i], VScale(Dt, G)))))
        New(i) == VScale(Rho[i], Snap.x[i])
    IN VEq(Sum(New), Sum(Old), Size(New) (+) Size(Old))

Energy(F(_)) == RSum([i \in 1..N |-> Rho[i] (.) VDot(F(i), F(i))])
NoEnergyCreated == At /\ Run.what = "collisions" /\ Run.set["coefficientOfRestitution"] \preceq One =>
    LET Old(i) == VAdd(Prev.v[i], VScale(Dt, G))
        New(i) == Snap.v[i]
    IN Energy(New) \preceq (Energy(Old) (.) (One (+) R("1e-10")))
\* a perfectly elastic pair keeps its energy
ElasticKeepsEnergy == At /\ Run.what = "collisions" /\ Run.set["coefficientOfRestitution"] = One =>
    LET Old(i) == VAdd(Prev.v[i], VScale(Dt, G))
        New(i) == Snap.v[i]
    IN RAbs(Energy(New) (-) Energy(Old)) \preceq (R("1e-10") (.) Energy(Old))
=============================================================================
