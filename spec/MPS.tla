--------------------------------- MODULE MPS ---------------------------------
(***************************************************************************)
(* The physics of MPS-Basic: what one time step does, phase by phase.      *)
(*                                                                         *)
(* A state s of the particle system is a record of sequences, all indexed  *)
(* by the particle's position in the input file:                           *)
(*   type  Ghost, Fluid, Wall or Dummy         ft   fluid type             *)
(*   rho   density                             x, v position, velocity     *)
(*   p     pressure        nd  number density  bc   boundary condition     *)
(*                                                                         *)
(* c is the record of parameters that Derive makes out of a settings file. *)
(* Every phase below is an operator from states to states; MPSMachine.tla  *)
(* makes one action out of each of them.                                   *)
(***************************************************************************)
EXTENDS Real64, Integers, Sequences, FiniteSets, TLC

Ghost == 0
Fluid == 1
Wall  == 2
Dummy == 3

Ignored     == 0
FreeSurface == 1
Inner       == 3

Zero  == RI(0)
One   == RI(1)
Zero3 == <<Zero, Zero, Zero>>

MaxI(a, b) == IF a < b THEN b ELSE a
RMax3(a, b, d) == RMax(a, RMax(b, d))

-----------------------------------------------------------------------------
(* Weight function and reference values of the complete regular lattice *)

W(d, re) == IF re \preceq d THEN Zero ELSE (re (/) d) (-) One

\* The sum of F(distance) over all sites but the origin of the dim-dimensional
\* lattice of spacing l0 that lie closer than re.
LatticeSum(dim, l0, re, F(_)) ==
    LET m  == RFloor(re (/) l0) + 1
        w  == 2*m + 1
        K  == IF dim = 2 THEN w*w ELSE w*w*w
        Site(k) == << (k % w) - m, ((k \div w) % w) - m, IF dim = 2 THEN 0 ELSE (k \div (w*w)) - m >>
        Dist(a) == l0 (.) RSqrt(RI(a[1]*a[1] + a[2]*a[2] + a[3]*a[3]))
        Term(a) == IF a = <<0, 0, 0>> THEN Zero ELSE F(Dist(a))
    IN RSum([k \in 1..K |-> Term(Site(k-1))])

N0(dim, l0, re) == LatticeSum(dim, l0, re, LAMBDA d : W(d, re))
Lambda0(dim, l0, re) ==
    LatticeSum(dim, l0, re, LAMBDA d : (d (.) d) (.) W(d, re)) (/) N0(dim, l0, re)

-----------------------------------------------------------------------------
(* Settings.  raw is the settings file as a record, key by key. *)

Opt(raw, key, default) == IF key \in DOMAIN raw THEN raw[key] ELSE default

Pi == R("3.14159265358979323846")

Gravity(raw) ==
    IF Opt(raw, "xyz-input", TRUE)
    THEN raw["gravity"]
    ELSE LET g  == Opt(raw, "gravity-norm", Zero)
             th == (Opt(raw, "gravity-angle", Zero) (.) Pi) (/) RI(180)
         IN << g (.) RSin(th), Zero (-) (g (.) RCos(th)), Zero >>

Derive(raw) ==
    LET l0  == raw["particleDistance"]
        reN == raw["radiusRatioForNumberDensity"] (.) l0
        reG == raw["radiusRatioForGradient"] (.) l0
        reL == raw["radiusRatioForLaplacian"] (.) l0
        dim == raw["dim"]
    IN TLCEval([ dim   |-> dim,
         l0    |-> l0,
         dt    |-> raw["dt"],
         end   |-> raw["endTime"],
         period |-> raw["outputPeriod"],
         cfl   |-> raw["cflCondition"],
         nu    |-> raw["kinematicViscosity"],
         g     |-> Gravity(raw),
         beta  |-> raw["surfaceDetection-numberDensity-threshold"],
         distr |-> raw["surfaceDetection-particleDistribution"],
         thr   |-> raw["surfaceDetection-particleDistribution-threshold"] (.) l0,
         method |-> raw["pressureCalculationMethod"],
         kappa |-> raw["compressibility"],
         gamma |-> raw["relaxationCoefficientForPressure"],
         cs    |-> raw["soundSpeed"],
         cd    |-> raw["collisionDistanceRatio"] (.) l0,
         rest  |-> raw["coefficientOfRestitution"],
         reN   |-> reN, reG |-> reG, reL |-> reL,
         reMax |-> RMax3(reN, reG, reL),
         lo    |-> raw["domainMin"], hi |-> raw["domainMax"],
         n0N   |-> N0(dim, l0, reN),
         n0G   |-> N0(dim, l0, reG),
         n0L   |-> N0(dim, l0, reL),
         lamL  |-> Lambda0(dim, l0, reL) ])

-----------------------------------------------------------------------------
(* Particles *)

Ids(s)     == 1..Len(s.type)
IsFluid(s, i) == s.type[i] = Fluid
Live(s, i) == s.type[i] # Ghost
LiveSeq(s) == [i \in Ids(s) |-> s.type[i] # Ghost]

\* A position that is not a number is in no domain.
InDomain(c, x) == \A a \in 1..3 : c.lo[a] \preceq x[a] /\ x[a] \preceq c.hi[a]

-----------------------------------------------------------------------------
(* Phase "search": who is out of the domain becomes a ghost ... *)
Leavers(c, s) == {i \in Ids(s) : Live(s, i) /\ ~InDomain(c, s.x[i])}

ToGhosts(c, s) ==
    [s EXCEPT !.type = TLCEval([i \in Ids(s) |-> IF Live(s, i) /\ ~InDomain(c, s.x[i]) THEN Ghost ELSE s.type[i]])]

(* ... and the others get their neighbours. *)
Neighbours(s, r) == TLCEval(NearPairs(s.x, LiveSeq(s), r))

-----------------------------------------------------------------------------
(* Phase "predict": gravity, viscosity, first move *)

ViscosityAcc(c, s, nb, i) ==
    LET a == (c.nu (.) RI(2 * c.dim)) (/) (c.n0L (.) c.lamL)
    IN VScale(a, VSum([k \in 1..Len(nb[i]) |->
            VScale(W(nb[i][k][2], c.reL), VSub(s.v[nb[i][k][1]], s.v[i]))]))

Predict(c, s, nb) ==
    LET v1 == TLCEval([i \in Ids(s) |->
                 IF IsFluid(s, i)
                 THEN VAdd(s.v[i], VScale(c.dt, VAdd(c.g, ViscosityAcc(c, s, nb, i))))
                 ELSE s.v[i]])
        x1 == TLCEval([i \in Ids(s) |->
                 IF IsFluid(s, i) THEN VAdd(s.x[i], VScale(c.dt, v1[i])) ELSE s.x[i]])
    IN [s EXCEPT !.v = v1, !.x = x1]

-----------------------------------------------------------------------------
(* Phase "collide" *)

\* The colliding pairs <<i, j, d>>: i is fluid, and a pair of two fluid particles is listed once, with j < i.
CollidingPairs(c, s, nb) ==
    { q \in UNION { { <<i, nb[i][k][1], nb[i][k][2]>> : k \in 1..Len(nb[i]) } : i \in {h \in Ids(s) : IsFluid(s, h)} } :
        (IsFluid(s, q[2]) => q[2] < q[1]) /\ q[3] \prec c.cd }

InvMass(s, i) == IF IsFluid(s, i) THEN One (/) s.rho[i] ELSE Zero

Unit(e) == LET n == VNorm(e) IN IF Zero \prec n THEN VScale(One (/) n, e) ELSE e

Collide(c, s, q) ==
    LET i == q[1]
        j == q[2]
        mass  == One (/) (InvMass(s, i) (+) InvMass(s, j))
        n     == Unit(VSub(s.x[j], s.x[i]))
        rel   == VDot(VSub(s.v[j], s.v[i]), n)
        J     == IF rel \prec Zero THEN (Zero (-) ((One (+) c.rest) (.) rel)) (.) mass ELSE Zero
        D     == (c.cd (-) q[3]) (.) mass
    IN [s EXCEPT !.v[i] = VSub(@, VScale(J (.) InvMass(s, i), n)),
                 !.v[j] = VAdd(@, VScale(J (.) InvMass(s, j), n)),
                 !.x[i] = VSub(@, VScale(D (.) InvMass(s, i), n)),
                 !.x[j] = VAdd(@, VScale(D (.) InvMass(s, j), n))]

RECURSIVE CollideInOrder(_, _, _)
CollideInOrder(c, s, qs) ==
    IF qs = <<>> THEN s ELSE CollideInOrder(c, TLCEval(Collide(c, s, Head(qs))), Tail(qs))

\* Some order of a set.
RECURSIVE AnyOrder(_)
AnyOrder(S) == IF S = {} THEN <<>> ELSE LET q == CHOOSE q \in S : TRUE IN <<q>> \o AnyOrder(S \ {q})

RECURSIVE AllOrders(_)
AllOrders(S) == IF S = {} THEN {<<>>}
                ELSE UNION { { <<q>> \o r : r \in AllOrders(S \ {q}) } : q \in S }

\* The order in which colliding pairs are handled matters only to fluid particles that are in several of them:
\* the others of these pairs, walls, take no part in it.
OrderMatters(s, pairs) ==
    \E q, r \in pairs : q # r /\ \E i \in {q[1], q[2]} \cap {r[1], r[2]} : IsFluid(s, i)

-----------------------------------------------------------------------------
(* Phase "density" *)

NumberDensity(c, s, nb) ==
    TLCEval([i \in Ids(s) |->
        IF Live(s, i) THEN RSum([k \in 1..Len(nb[i]) |-> W(nb[i][k][2], c.reN)]) ELSE Zero])

Density(c, s, nb) == [s EXCEPT !.nd = NumberDensity(c, s, nb)]

-----------------------------------------------------------------------------
(* Phase "classify" (implicit pressure only) *)

OneSided(c, s, nb, i) ==
    LET sum == VSum([k \in 1..Len(nb[i]) |-> VSub(s.x[nb[i][k][1]], s.x[i])])
    IN \E a \in 1..3 : c.thr \prec RAbs(sum[a])

BoundaryCondition(c, s, nb, i) ==
    IF s.type[i] \in {Ghost, Dummy} THEN Ignored
    ELSE IF /\ s.nd[i] \prec (c.beta (.) c.n0N)
            /\ c.distr => (nb[i] = <<>> \/ OneSided(c, s, nb, i))
         THEN FreeSurface
         ELSE Inner

Classify(c, s, nb) ==
    [s EXCEPT !.bc = TLCEval([i \in Ids(s) |-> BoundaryCondition(c, s, nb, i)])]

-----------------------------------------------------------------------------
(* Phase "pressure" *)

PPERow(c, s, nb, i) ==
    IF s.bc[i] # Inner THEN << <<i, One>> >>
    ELSE LET a == RI(2 * c.dim) (/) (c.n0L (.) c.lamL)
             js == SelectSeq(nb[i], LAMBDA e : s.bc[e[1]] # Ignored /\ e[2] \prec c.reL)
             k(e) == (a (.) W(e[2], c.reL)) (/) s.rho[i]
             off == [m \in 1..Len(js) |-> << js[m][1], Zero (-) k(js[m]) >>]
             dia == RSum([m \in 1..Len(js) |-> k(js[m])]) (+) (c.kappa (/) (c.dt (.) c.dt))
         IN Append(off, <<i, dia>>)

PPESource(c, s, i) ==
    IF s.bc[i] # Inner THEN Zero
    ELSE (c.gamma (/) (c.dt (.) c.dt)) (.) ((s.nd[i] (-) c.n0N) (/) c.n0N)

\* The solution before negative values are replaced; <<>> if there is none. The pressure of the particles in the set `still` is taken for 0.
PPESolutionBut(c, s, nb, still) ==
    TLCEval(SpSolve(TLCEval([i \in Ids(s) |-> IF i \in still THEN << <<i, One>> >> ELSE PPERow(c, s, nb, i)]),
                    TLCEval([i \in Ids(s) |-> IF i \in still THEN Zero ELSE PPESource(c, s, i)])))
PPESolution(c, s, nb) == PPESolutionBut(c, s, nb, {})

\* Inner particles are open if they are linked, perhaps through others, with a free surface, and otherwise pent.
\* What pent particles have in common is settled by the compressibility alone; without that, their equations
\* add up (weighted with their densities) to 0 = the sum of their sources.
Linked(c, s, nb) == TLCEval([i \in Ids(s) |->
    {nb[i][m][1] : m \in {q \in 1..Len(nb[i]) : s.bc[nb[i][q][1]] # Ignored /\ nb[i][q][2] \prec c.reL}}])
RECURSIVE Spread(_, _, _)
Spread(link, done, new) ==
    IF new = {} THEN done
    ELSE Spread(link, done \cup new, (UNION {link[i] : i \in new}) \ (done \cup new))
InnerOnes(s) == {i \in Ids(s) : s.bc[i] = Inner}
Pent(c, s, nb) == TLCEval(InnerOnes(s) \ Spread(Linked(c, s, nb), {}, {i \in Ids(s) : s.bc[i] = FreeSurface}))
PentGroups(c, s, nb) == LET link == Linked(c, s, nb) IN TLCEval({Spread(link, {}, {i}) : i \in Pent(c, s, nb)})
SourcesOf(c, s, G) == RSum([i \in Ids(s) |-> IF i \in G THEN s.rho[i] (.) PPESource(c, s, i) ELSE Zero])
\* ... so that there is no solution if that sum is not 0 (and clearly so, in numbers that are rounded).
Hopeless(c, s, nb) ==
    /\ c.kappa = Zero
    /\ LET all == TLCEval(MaxOf(Zero, [i \in Ids(s) |-> RAbs(PPESource(c, s, i))]))
       IN \E G \in PentGroups(c, s, nb) :
            LET big == RSum([i \in Ids(s) |-> IF i \in G THEN RAbs(s.rho[i]) ELSE Zero])
            IN (RQ(1, 1000) (.) (big (.) all)) \prec RAbs(SourcesOf(c, s, G))

Clamped(q) == TLCEval([i \in 1..Len(q) |-> RMax(Zero, q[i])])
ImplicitPressure(c, s, nb) == Clamped(PPESolution(c, s, nb))

ExplicitPressure(c, s) ==
    TLCEval([i \in Ids(s) |->
        IF Live(s, i) /\ c.n0N \prec s.nd[i]
        THEN (((c.cs (.) c.cs) (.) s.rho[i]) (.) (s.nd[i] (-) c.n0N)) (/) c.n0N
        ELSE Zero])

-----------------------------------------------------------------------------
(* Phase "correct": pressure gradient, second move *)

TakesPart(s, i) == s.type[i] \in {Fluid, Wall}

GradientNeighbours(c, s, nb, i) ==
    SelectSeq(nb[i], LAMBDA e : TakesPart(s, e[1]) /\ e[2] \prec c.reG)

MinPressure(c, s, js, i) == MinOf(s.p[i], [k \in 1..Len(js) |-> s.p[js[k][1]]])

GradientAcc(c, s, nb, i) ==
    LET js == GradientNeighbours(c, s, nb, i)
        pm == MinPressure(c, s, js, i)
        t(e) == VScale(((s.p[e[1]] (-) pm) (/) (e[2] (.) e[2])) (.) W(e[2], c.reG), VSub(s.x[e[1]], s.x[i]))
    IN VScale((Zero (-) (RI(c.dim) (/) c.n0G)) (/) s.rho[i], VSum([k \in 1..Len(js) |-> t(js[k])]))

Correct(c, s, nb) ==
    LET a  == TLCEval([i \in Ids(s) |-> IF IsFluid(s, i) THEN GradientAcc(c, s, nb, i) ELSE Zero3])
        v1 == TLCEval([i \in Ids(s) |-> IF IsFluid(s, i) THEN VAdd(s.v[i], VScale(c.dt, a[i])) ELSE s.v[i]])
        x1 == TLCEval([i \in Ids(s) |-> IF IsFluid(s, i) THEN VAdd(s.x[i], VScale(c.dt (.) c.dt, a[i])) ELSE s.x[i]])
    IN [s EXCEPT !.v = v1, !.x = x1]

-----------------------------------------------------------------------------
(* Courant number *)

CourantNumber(c, s) ==
    MaxOf(Zero, [i \in Ids(s) |->
        IF IsFluid(s, i) THEN (VNorm(s.v[i]) (.) c.dt) (/) c.l0 ELSE Zero])
=============================================================================
