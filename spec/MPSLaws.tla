------------------------------- MODULE MPSLaws -------------------------------
(***************************************************************************)
(* Laws of the time step, as invariants and properties of MPSMachine.      *)
(* TLC checks them on all small setups of a scope: a generated module      *)
(* MC... extends this one and defines Setups, a set of <<parameters,       *)
(* particles>>, and the number of steps.                                   *)
(*                                                                         *)
(* Here the machine runs by itself: pairs collide in every order.          *)
(***************************************************************************)
EXTENDS MPSMachine, Symmetry

VARIABLES n,      \* steps done
          gone    \* particles reported to have left the domain since the start

lvars == <<mvars, n, gone>>

LInit(Setups) == /\ \E q \in Setups : MInit(q[1], q[2])
                 /\ n = 0 /\ gone = {}
LNext(steps) == /\ ~(pc = "begin" /\ n >= steps)
                /\ MNext
                /\ n' = IF pc = "end" THEN n + 1 ELSE n
                /\ gone' = gone \cup left'

Eps == R("1e-9")
Same(a, b, scale) == RAbs(a (-) b) \preceq (Eps (.) scale)
VSame(a, b, scale) == \A d \in 1..3 : Same(a[d], b[d], scale)
SpeedOf(c1) == c1.l0 (/) c1.dt
\* Values are of the order of the setup's lengths and speeds, or of their own size.
VecNear(a, b, unit) == VSame(a, b, RMax(unit, RMax(VNorm(a), VNorm(b))))
StateNear(c1, a, b) ==
    /\ a.type = b.type /\ a.ft = b.ft /\ a.bc = b.bc
    /\ \A i \in Ids(a) : /\ VecNear(a.x[i], b.x[i], RMax(c1.l0, VNorm(c1.lo)))
                         /\ VecNear(a.v[i], b.v[i], SpeedOf(c1))
                         /\ Same(a.nd[i], b.nd[i], RMax(One, b.nd[i]))
                         /\ Same(a.p[i], b.p[i], RMax(MaxOf(Zero, a.p), R("1e-30")))

-----------------------------------------------------------------------------
(* A whole step as a function; of the orders of collisions it takes any. *)

SearchedIn(c1, s1) == ToGhosts(c1, s1)
AfterCollisions(c1, s0) ==
    LET s1 == ToGhosts(c1, s0)
        s2 == ToGhosts(c1, Predict(c1, s1, Neighbours(s1, c1.reMax)))
        ps == CollidingPairs(c1, s2, Neighbours(s2, c1.reMax))
    IN [s |-> ToGhosts(c1, CollideInOrder(c1, s2, AnyOrder(ps))), clash |-> OrderMatters(s2, ps)]
AfterPressure(c1, s3, nb3) ==
    LET s4 == Density(c1, s3, nb3)
        s5 == IF c1.method = "Implicit" THEN Classify(c1, s4, nb3) ELSE s4
    IN [s5 EXCEPT !.p = IF c1.method = "Implicit" THEN ImplicitPressure(c1, s5, nb3) ELSE ExplicitPressure(c1, s5)]
StepOf(c1, s0) ==
    LET q   == TLCEval(AfterCollisions(c1, s0))
        nb3 == Neighbours(q.s, c1.reMax)
        s6  == TLCEval(AfterPressure(c1, q.s, nb3))
    IN [s |-> Correct(c1, s6, nb3), clash |-> q.clash]

AtBegin == pc = "begin"
\* the machine itself agrees with StepOf (s6 and nb are the machine's own)
\* C16: a step does not depend on how the run got here
Forget(s1) == [s1 EXCEPT !.p = [i \in Ids(s1) |-> RI(77)], !.nd = [i \in Ids(s1) |-> RI(77)],
                         !.bc = IF c.method = "Implicit" THEN [i \in Ids(s1) |-> Ignored] ELSE @]
Forgetful == AtBegin => StepOf(c, Forget(s)).s = StepOf(c, s).s

\* C02: a ghost influences nobody
RemoveAt(q, i) == [m \in 1..Len(q)-1 |-> IF m < i THEN q[m] ELSE q[m+1]]
Without(s1, i) == TLCEval([ type |-> RemoveAt(s1.type, i), ft |-> RemoveAt(s1.ft, i), rho |-> RemoveAt(s1.rho, i),
                    x |-> RemoveAt(s1.x, i), v |-> RemoveAt(s1.v, i), p |-> RemoveAt(s1.p, i),
                    nd |-> RemoveAt(s1.nd, i), bc |-> RemoveAt(s1.bc, i) ])
GhostsIsolated == AtBegin => \A g \in Ids(s) :
    s.type[g] = Ghost => LET w == StepOf(c, s) IN
                         w.clash \/ StateNear(c, StepOf(c, Without(s, g)).s, Without(w.s, g))

\* C02: the faces belong to the domain
OnlyOutsideLeaves == [][\A i \in Ids(s) : (s.type[i] # Ghost /\ s'.type[i] = Ghost) =>
    \E a \in 1..3 : s.x[i][a] \prec c.lo[a] \/ c.hi[a] \prec s.x[i][a]]_lvars

\* C05: somebody without any influence falls freely
Alone(i) == \A j \in Ids(s) : j = i \/ ~Live(s, j) \/ RI(4) (.) c.reMax \prec VNorm(VSub(s.x[i], s.x[j]))
FreeFall == [][pc = "begin" /\ n' = n =>
    \A i \in Ids(s) : LET w == StepOf(c, s).s
                          u == VAdd(s.v[i], VScale(c.dt, c.g)) IN
        (Alone(i) /\ IsFluid(s, i) /\ InDomain(c, s.x[i]) /\ w.type[i] = Fluid) =>
            w.v[i] = u /\ w.x[i] = VAdd(s.x[i], VScale(c.dt, u))]_lvars

\* C25
Equivariant(Syms(_)) == AtBegin => \A y \in Syms(Len(s.type)) :
    LET w == StepOf(c, s)
        c2 == SymParams(y, c)
        w2 == StepOf(c2, SymState(y, s))
    IN w.clash \/ w2.clash \/ StateNear(c2, SymState(y, w.s), w2.s)

-----------------------------------------------------------------------------
(* Collisions: C07, C23 *)

\* todo is complete right after the second search
FullTodo == pc = "collide" /\ todo = CollidingPairs(c, s, nb)
Commute == FullTodo /\ ~OrderMatters(s, todo) =>
    \A o \in AllOrders(todo) : StateNear(c, CollideInOrder(c, s, o), CollideInOrder(c, s, AnyOrder(todo)))

\* Each fluid particle once per pair, each pair once
PairsOK == FullTodo => \A q \in todo :
    /\ IsFluid(s, q[1]) /\ Live(s, q[2]) /\ q[1] # q[2]
    /\ q[3] = VNorm(VSub(s.x[q[1]], s.x[q[2]])) /\ q[3] \prec c.cd
    /\ ~\E r \in todo : r[1] = q[2] /\ r[2] = q[1]
AllPairsThere == FullTodo => \A i, j \in Ids(s) :
    (i # j /\ IsFluid(s, i) /\ Live(s, j) /\ VNorm(VSub(s.x[i], s.x[j])) \prec c.cd) =>
        \E q \in todo : {q[1], q[2]} = {i, j}

Momentum(s1) == VSum([i \in Ids(s1) |-> IF IsFluid(s1, i) THEN VScale(s1.rho[i], s1.v[i]) ELSE Zero3])
Centre(s1)   == VSum([i \in Ids(s1) |-> IF IsFluid(s1, i) THEN VScale(s1.rho[i], s1.x[i]) ELSE Zero3])
Energy(s1)   == RSum([i \in Ids(s1) |-> IF IsFluid(s1, i) THEN s1.rho[i] (.) VDot(s1.v[i], s1.v[i]) ELSE Zero])
RhoMax(s1)   == MaxOf(Zero, s1.rho)
FluidPair(q) == IsFluid(s, q[1]) /\ IsFluid(s, q[2])

\* q is what has been handled in the step from s to s'
PairLaws ==
    [][\A q \in todo : (pc = "collide" /\ pc' = "collide" /\ todo' = todo \ {q}) =>
         LET rel(s1) == VSub(s1.v[q[2]], s1.v[q[1]])
             e  == Unit(VSub(s.x[q[2]], s.x[q[1]]))
             u0 == VDot(rel(s), e)
             u1 == VDot(rel(s'), e)
             scale == RhoMax(s) (.) RMax(SpeedOf(c), VNorm(s.v[q[1]]) (+) VNorm(s.v[q[2]]))
         IN /\ FluidPair(q) => VSame(Momentum(s'), Momentum(s), scale)
            /\ FluidPair(q) => VSame(Centre(s'), Centre(s), RhoMax(s) (.) (RI(100) (.) c.l0))
            /\ \A i \in Ids(s) : i \notin {q[1], q[2]} \/ ~IsFluid(s, i) => s'.x[i] = s.x[i] /\ s'.v[i] = s.v[i]
            \* restitution
            /\ u0 \prec Zero => Same(u1, Zero (-) (c.rest (.) u0), RMax(SpeedOf(c), RAbs(u0)))
            /\ Zero \preceq u0 => s'.v = s.v
            \* pushed apart by what is missing, on the line between them
            /\ Zero \prec VNorm(VSub(s.x[q[2]], s.x[q[1]])) =>
                 VecNear(VSub(s'.x[q[2]], s'.x[q[1]]),
                         VScale(VNorm(VSub(s.x[q[2]], s.x[q[1]])) (+) (c.cd (-) q[3]), e), c.l0)
            /\ c.rest \preceq One /\ (FluidPair(q) \/ s.v[q[2]] = Zero3) => Energy(s') \preceq (Energy(s) (+) ((Eps (.) scale) (.) RMax(SpeedOf(c), VNorm(s.v[q[1]]) (+) VNorm(s.v[q[2]]))))]_lvars

\* viscosity keeps the sum of velocities of a fluid that has no walls
Velocities(s1) == VSum([i \in Ids(s1) |-> s1.v[i]])
ViscosityKeeps ==
    [][(pc = "predict" /\ \A i \in Ids(s) : s.type[i] \in {Fluid, Ghost}) =>
        VSame(Velocities(s'), VAdd(Velocities(s), VScale(c.dt (.) RI(Cardinality({i \in Ids(s) : IsFluid(s, i)})), c.g)),
              RMax(SpeedOf(c), RSum([i \in Ids(s) |-> VNorm(s.v[i]) (+) VNorm(s'.v[i])])))]_lvars

\* and brings velocities together, as long as the time step is not too long for it
DiffusionStable == \A i \in Ids(s) :
    (((c.dt (.) c.nu) (.) RI(2 * c.dim)) (.) RSum([m \in 1..Len(nb[i]) |-> W(nb[i][m][2], c.reL)])) \preceq (c.n0L (.) c.lamL)
ViscosityDiffuses ==
    [][(pc = "predict" /\ c.g = Zero3 /\ DiffusionStable) =>
        \A i \in Ids(s) : \A d \in 1..3 :
            /\ s'.v[i][d] \preceq (MaxOf(s.v[i][d], [m \in 1..Len(nb[i]) |-> s.v[nb[i][m][1]][d]]) (+) Eps)
            /\ (MinOf(s.v[i][d], [m \in 1..Len(nb[i]) |-> s.v[nb[i][m][1]][d]]) (-) Eps) \preceq s'.v[i][d]]_lvars

-----------------------------------------------------------------------------
(* Number density: C08 *)

DensityLaws == pc = "classify" => \A i \in Ids(s) :
    /\ Zero \preceq s.nd[i]
    /\ s.type[i] = Ghost => s.nd[i] = Zero
    /\ s.nd[i] = Zero <=> (~Live(s, i) \/ \A j \in Ids(s) : j = i \/ ~Live(s, j) \/ c.reN \preceq VNorm(VSub(s.x[i], s.x[j])))

\* The particle in the middle of a complete lattice has the reference values.
LatticeSites(dim, m) ==
    LET w == 2*m + 1
    IN [h \in 1..(IF dim = 2 THEN w*w ELSE w*w*w) |->
           << RI(((h-1) % w) - m), RI((((h-1) \div w) % w) - m), IF dim = 2 THEN Zero ELSE RI(((h-1) \div (w*w)) - m) >>]
ReferenceIsLattice(dim, l0, ratio) ==
    LET m  == RFloor(ratio) + 1
        at == LatticeSites(dim, m)
        xs == [h \in 1..Len(at) |-> VScale(l0, at[h])]
        o  == CHOOSE h \in 1..Len(xs) : xs[h] = Zero3
        re == ratio (.) l0
        nbs == NearPairs(xs, [h \in 1..Len(xs) |-> TRUE], re)[o]
        nd == RSum([h \in 1..Len(nbs) |-> W(nbs[h][2], re)])
        la == RSum([h \in 1..Len(nbs) |-> (nbs[h][2] (.) nbs[h][2]) (.) W(nbs[h][2], re)])
    IN /\ Same(nd, N0(dim, l0, re), nd)
       /\ Same(la (/) nd, Lambda0(dim, l0, re), la (/) nd)

-----------------------------------------------------------------------------
(* Pressure: C09, C10, C11, C12 *)

Solving == pc = "pressure" /\ c.method = "Implicit"
Dominant == Solving => \A i \in Ids(s) :
    LET row == PPERow(c, s, nb, i)
        dia == row[Len(row)][2]
        off == RSum([m \in 1..Len(row)-1 |-> RAbs(row[m][2])])
    IN /\ row[Len(row)][1] = i /\ Zero \prec dia
       /\ off \preceq (dia (.) (One (+) Eps))
       /\ \A m \in 1..Len(row)-1 : row[m][2] \preceq Zero /\ row[m][1] # i
\* scaled with the density the matrix is symmetric
SymmetricMatrix == Solving => \A i, j \in Ids(s) :
    (i # j /\ s.bc[i] = Inner /\ s.bc[j] = Inner) =>
        LET e(a, b) == LET row == PPERow(c, s, nb, a)
                       IN RSum([m \in 1..Len(row) |-> IF row[m][1] = b THEN s.rho[a] (.) row[m][2] ELSE Zero])
        IN Same(e(i, j), e(j, i), RMax(One, RAbs(e(i, j))))
Solvable == pc # "failed"
\* ... but for particles without a free surface in a fluid that gives way to nothing
FailsOnlyIfPent == pc = "failed" => c.kappa = Zero /\ Pent(c, s, nb) # {}
PentBalance == Solving => \A G \in PentGroups(c, s, nb) : \A j \in Ids(s) :
    LET e(a) == LET row == PPERow(c, s, nb, a)
                IN RSum([m \in 1..Len(row) |-> IF row[m][1] = j THEN s.rho[a] (.) row[m][2] ELSE Zero])
        on == RSum([i \in Ids(s) |-> IF i \in G THEN e(i) ELSE Zero])
        k  == c.kappa (/) (c.dt (.) c.dt)
    IN IF j \in G THEN Same(on, s.rho[j] (.) k, RMax(One, RAbs(e(j)))) ELSE on = Zero
\* what is not pent has one solution, pressed by nothing but positive sources
OpenSolved == Solving => LET pent == Pent(c, s, nb)
                             q == PPESolutionBut(c, s, nb, pent) IN
    /\ q # <<>>
    /\ (\A i \in Ids(s) \ pent : PPESource(c, s, i) \preceq Zero) => \A i \in Ids(s) : q[i] \preceq Eps
\* without a free surface anywhere, and with nothing that gives way, the equations hold in two ways or in none
NoneOrMany == Solving /\ c.kappa = Zero /\ Pent(c, s, nb) # {} =>
    \A G \in PentGroups(c, s, nb) : \A i \in G : \A m \in 1..Len(PPERow(c, s, nb, i)) : PPERow(c, s, nb, i)[m][1] \in G
\* no pressure without compression
NoCompressionNoPressure == (pc = "correct" /\ \A i \in Ids(s) : s.nd[i] \preceq c.n0N) =>
    \A i \in Ids(s) : Same(s.p[i], Zero, One)
Classified == Solving => \A i \in Ids(s) :
    /\ s.bc[i] = Ignored <=> s.type[i] \in {Ghost, Dummy}
    /\ s.bc[i] \in {Ignored, FreeSurface, Inner}
    /\ (s.bc[i] = FreeSurface) => s.nd[i] \prec (c.beta (.) c.n0N)
    /\ (s.bc[i] = Inner /\ ~c.distr) => (c.beta (.) c.n0N) \preceq s.nd[i]
\* pressure only pushes: with a single partner, away from it
OnlyPushes == pc = "correct" => \A i \in {h \in Ids(s) : IsFluid(s, h)} :
    LET js == GradientNeighbours(c, s, nb, i)
        a  == GradientAcc(c, s, nb, i) IN
    /\ Len(js) = 0 => a = Zero3
    /\ Len(js) = 1 => VDot(a, VSub(s.x[js[1][1]], s.x[i])) \preceq Zero
    /\ (\A m \in 1..Len(js) : s.p[js[m][1]] = s.p[i]) => a = Zero3

-----------------------------------------------------------------------------
(* The machine refines MPSAbstract. *)
Abs == INSTANCE MPSAbstract WITH type <- s.type, ft <- s.ft, rho <- s.rho, x <- s.x, v <- s.v,
           outside <- {i \in Ids(s) : ~InDomain(c, s.x[i])}, warned <- gone
RefinesAbstract == Abs!ASpec
=============================================================================
