------------------------------- MODULE MPSTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded runs of the real program to MPSMachine.         *)
(*                                                                         *)
(* Runs is a sequence of recorded runs; each has its settings file, its    *)
(* particles, and one full-precision snapshot per time step.  A behaviour  *)
(* of this specification goes through one run, phase by phase.  A phase    *)
(* starts from what the program wrote as far as it wrote it (number        *)
(* density, boundary condition and pressure in the middle of the step,     *)
(* everything at its end); what it did not write is computed by the        *)
(* specification.  Each clause below compares what a phase computed with   *)
(* what the program wrote.                                                 *)
(***************************************************************************)
EXTENDS MPSMachine, TraceCommon

VARIABLES amb,   \* the step hinges on a comparison of reals that are equal up to rounding
          cnt    \* how much has been compared

tvars == <<mvars, run, k, amb, cnt>>


-----------------------------------------------------------------------------
(* Equality up to rounding *)

Eps == R("1e-9")

NearlyEqual(a, b, scale) == RAbs(a (-) b) \preceq (Eps (.) scale)
\* (scale is a value: operators that go over all particles are evaluated once, not for every particle)
VNear(a, b, scale) == \A d \in 1..3 : NearlyEqual(a[d], b[d], scale)

VMax(vs) == MaxOf(Zero, [i \in 1..Len(vs) |-> RMax3(RAbs(vs[i][1]), RAbs(vs[i][2]), RAbs(vs[i][3]))])

XScale == RMax(c.l0, RMax(VMax(s.x), VMax(Snap.x)))
VScaleOf == RMax((R("0.001") (.) c.l0) (/) c.dt, RMax(VMax(s.v), VMax(Snap.v)))

\* a and b differ, but only by what rounding may have done
Tie(a, b, scale) == a # b /\ RAbs(a (-) b) \preceq (Eps (.) scale)

\* In a run that is marked exact, all distances are exact, so that equality is meant.
TieX(a, b, scale) == IF Run.exact THEN FALSE ELSE RAbs(a (-) b) \preceq (Eps (.) scale)

DomainTie(st) == ~Run.exact /\ LET sc == TLCEval(XScale) IN
    \E i \in Ids(st) : Live(st, i) /\ \E a \in 1..3 :
        Tie(st.x[i][a], c.lo[a], sc) \/ Tie(st.x[i][a], c.hi[a], sc)

RadiusTie(st, r) == ~Run.exact /\
    LET w == TLCEval(NearPairs(st.x, LiveSeq(st), r (.) (One (+) Eps))) IN
    \E i \in Ids(st) : \E m \in 1..Len(w[i]) : TieX(w[i][m][2], r, r)

-----------------------------------------------------------------------------
Zeroes == [steps |-> 0, skipped |-> 0, fluids |-> 0, left |-> 0, pairs |-> 0, groups |-> 0, free |-> 0, inner |-> 0,
           pressed |-> 0, pushed |-> 0]

TInit ==
    /\ run \in 1..Len(Runs)
    /\ k = 2
    /\ amb = FALSE
    /\ cnt = Zeroes
    /\ IF Shaped[run]
       THEN MInit(Derive(Runs[run].set), StateOf(Runs[run], 1))
       ELSE MInit([method |-> "none"], [type |-> <<>>]) 

More == Shaped[run] /\ k <= Len(Run.snaps)

Keep == UNCHANGED <<run, k, cnt>>

TBegin   == More /\ Begin(s) /\ Keep /\ amb' = FALSE
TPredict == More /\ PredictMove(s) /\ Keep /\ UNCHANGED amb
TSearch2 == /\ More /\ Search2(s) /\ UNCHANGED <<run, k>>
            /\ amb' = (DomainTie(s) \/ RadiusTie(s, c.cd))
            /\ cnt' = [cnt EXCEPT !.pairs = @ + Cardinality(todo')]

\* Collisions.  The pairs fall into groups that have no fluid particle in common; the order matters only
\* within a group.  If nothing else moves the particles afterwards (all pressures are 0), the order in which the
\* program handled a group of up to five pairs is found by trying all: any order will do, as long as
\* each pair is handled once.
SharesFluid(q, r) == \E i \in {q[1], q[2]} \cap {r[1], r[2]} : IsFluid(s, i)
RECURSIVE Group(_, _)
Group(G, rest) ==
    LET near == {r \in rest : \E q \in G : SharesFluid(q, r)} IN
    IF near = {} THEN G ELSE Group(G \cup near, rest \ near)

FluidsOf(G) == {i \in UNION { {q[1], q[2]} : q \in G } : IsFluid(s, i)}

ExplainedBy(G, st) == LET vs == TLCEval(VScaleOf)
                           xs == TLCEval(XScale)
                       IN \A i \in FluidsOf(G) : VNear(Snap.v[i], st.v[i], vs) /\ VNear(Snap.x[i], st.x[i], xs)

MaxGroup == 5

\* The state after all collisions of the pairs in rest, starting from st.
RECURSIVE CollideGroups(_, _)
CollideGroups(st, rest) ==
    IF rest = {} THEN st
    ELSE LET q == CHOOSE q \in rest : TRUE
             G == Group({q}, rest \ {q})
             one == TLCEval(CollideInOrder(c, st, AnyOrder(G)))
             st1 == IF Cardinality(G) = 1 \/ Cardinality(G) > MaxGroup \/ ExplainedBy(G, one) THEN one
                    ELSE LET good == {o \in AllOrders(G) : ExplainedBy(G, CollideInOrder(c, st, o))}
                         IN IF good = {} THEN one ELSE CollideInOrder(c, st, CHOOSE o \in good : TRUE)
         IN CollideGroups(TLCEval(st1), rest \ G)

BigGroup == \E q \in todo : Cardinality(Group({q}, todo \ {q})) > MaxGroup
NoPressure == \A i \in 1..N : Snap.p[i] = Zero

TCollide ==
    /\ More
    /\ IF OrderMatters(s, todo) /\ NoPressure
       THEN /\ pc = "collide" /\ Goto("search3")
            /\ s' = CollideGroups(s, todo)
            /\ todo' = {}
            /\ UNCHANGED <<nb, left>>
       ELSE CollideAll
    /\ UNCHANGED <<run, k>>
    /\ cnt' = [cnt EXCEPT !.groups = @ + (IF OrderMatters(s, todo) THEN 1 ELSE 0)]
    /\ amb' = (amb \/ (OrderMatters(s, todo) /\ (~NoPressure \/ BigGroup)))
TSearch3 == More /\ Search3(s) /\ Keep /\ amb' = (amb \/ DomainTie(s))
TDensity == More /\ CountDensity(s) /\ Keep /\ UNCHANGED amb
\* From here on the program's own values are taken over as soon as they have been compared.
TClassify == More /\ ClassifySurface([s EXCEPT !.nd = Snap.nd]) /\ Keep /\ UNCHANGED amb
TPressure == More /\ SolvePressure([s EXCEPT !.bc = Snap.bc]) /\ Keep /\ UNCHANGED amb
\* The specification found no solution, but the program went on: nothing is claimed of this step.
TUnsolved == More /\ pc = "failed" /\ pc' = "correct" /\ amb' = TRUE /\ Keep /\ UNCHANGED <<c, s, nb, todo, left>>
TCorrect  == /\ More /\ CorrectMove([s EXCEPT !.p = Snap.p]) /\ UNCHANGED <<run, k>>
             /\ amb' = (amb \/ RadiusTie(s, c.reG))
             /\ cnt' = [cnt EXCEPT
                   !.left   = @ + Cardinality(left),
                   !.free   = @ + Cardinality({i \in Ids(s) : Snap.bc[i] = FreeSurface}),
                   !.inner  = @ + Cardinality({i \in Ids(s) : Snap.bc[i] = Inner}),
                   !.pressed = @ + Cardinality({i \in Ids(s) : Zero \prec Snap.p[i]}),
                   !.pushed = @ + Cardinality({i \in Ids(s) : s'.v[i] # s.v[i]})]
\* The step has been compared; the next one starts from what the program wrote.
TEnd ==
    /\ More /\ pc = "end"
    /\ s' = StateOf(Run, k)
    /\ k' = k + 1
    /\ cnt' = [cnt EXCEPT !.steps = @ + 1, !.skipped = @ + (IF amb THEN 1 ELSE 0),
                          !.fluids = @ + Cardinality({i \in Ids(s) : IsFluid(s, i)})]
    /\ pc' = "begin" /\ left' = {} /\ nb' = <<>> /\ amb' = FALSE
    /\ UNCHANGED <<run, c, todo>>
TDone ==
    /\ pc = "begin" /\ ~More /\ k <= Len(Run.snaps) + 1
    /\ PrintT(<<"TALLY", run, Run.name, cnt>>)
    /\ k' = Len(Run.snaps) + 2
    /\ UNCHANGED <<mvars, run, amb, cnt>>

TNext == TBegin \/ TPredict \/ TSearch2 \/ TCollide \/ TSearch3 \/ TDensity \/ TClassify \/ TPressure
         \/ TUnsolved \/ TCorrect \/ TEnd \/ TDone

TSpec == TInit /\ [][TNext]_tvars

-----------------------------------------------------------------------------
(* The clauses *)

AtEnd == pc = "end" /\ ~amb
\* amb can be set by the last phase for reasons that do not concern the earlier ones
Compared(at) == pc = at /\ ~amb

TypesConform == AtEnd => Snap.type = s.type
VelocityConforms == AtEnd => LET sc == TLCEval(VScaleOf) IN \A i \in Ids(s) : VNear(Snap.v[i], s.v[i], sc)
PositionConforms == AtEnd => LET sc == TLCEval(XScale) IN \A i \in Ids(s) : VNear(Snap.x[i], s.x[i], sc)

\* Warnings: one for each particle that left in this step (Run.warn[k-1] lists their numbers, counted from 0)
WarningsConform == AtEnd =>
    LET w == Run.warn[k-1] IN
    /\ Len(w) = Cardinality(left)
    /\ {w[m] + 1 : m \in 1..Len(w)} = left

DensityConforms == Compared("classify") =>
    LET sc == TLCEval(RMax(c.n0N, MaxOf(Zero, s.nd))) IN
    \A i \in Ids(s) : NearlyEqual(Snap.nd[i], s.nd[i], sc)
RatioConforms == Compared("classify") =>
    \A i \in Ids(s) : NearlyEqual(Snap.ratio[i], Snap.nd[i] (/) c.n0N, RMax(One, RAbs(Snap.ratio[i])))

\* Courant number: printed with two digits for each step; one error line exactly if it exceeds the limit
CourantPrinted == pc = "end" =>
    /\ Len(Run.courant) >= k - 1
    /\ LET q == CourantNumber(c, StateOf(Run, k)) IN
       RAbs(Run.courant[k-1] (-) q) \preceq (R("0.005000001") (+) (R("1e-12") (.) q))
CflReported == pc = "end" =>
    LET q == CourantNumber(c, StateOf(Run, k))
        lines == Run.cfl[k-1]
    IN \/ TieX(q, c.cfl, c.cfl)
       \/ /\ Len(lines) = (IF c.cfl \prec q THEN 1 ELSE 0)
          /\ \A m \in 1..Len(lines) : RAbs(lines[m] (-) q) \preceq (R("5.001e-6") (.) q)

GhostDensityZero == pc = "end" => \A i \in Ids(s) : Snap.type[i] = Ghost => Snap.nd[i] = Zero

\* In some exact runs the number densities are exact, too.
ExactDensities == "exactnd" \in DOMAIN Run

\* The boundary condition, unless it hinges on rounding
BcHinges(i) ==
    \/ ~(Snap.nd[i] = Zero) /\ ~ExactDensities /\ RAbs(Snap.nd[i] (-) (c.beta (.) c.n0N)) \preceq (Eps (.) c.n0N)
    \/ c.distr /\ LET sum == VSum([m \in 1..Len(nb[i]) |-> VSub(s.x[nb[i][m][1]], s.x[i])]) IN
                  \E a \in 1..3 : TieX(RAbs(sum[a]), c.thr, c.l0)
BoundaryConforms == Compared("pressure") /\ c.method = "Implicit" =>
    (RadiusTie(s, c.reMax) /\ c.distr) \/ \A i \in Ids(s) : Snap.bc[i] = s.bc[i] \/ BcHinges(i)

PScale == MaxOf(MaxOf(Zero, s.p), Snap.p)
Pressed == pc \in {"correct", "failed"} /\ ~amb /\ c.method = "Implicit"
ImplicitPressureConforms == Pressed =>
    LET near(q, on, eps) ==      \* (before clamping: the size of the terms)
            LET sc == TLCEval(MaxOf(MaxOf(Zero, [i \in Ids(s) |-> IF i \in on THEN Snap.p[i] ELSE Zero]),
                                    [i \in Ids(s) |-> IF i \in on THEN RAbs(q[i]) ELSE Zero]))
            IN \A i \in on : RAbs(Snap.p[i] (-) RMax(Zero, q[i])) \preceq (eps (.) sc)
    IN IF c.kappa = Zero
       THEN LET pent == Pent(c, s, nb) IN near(PPESolutionBut(c, s, nb, pent), Ids(s) \ pent, R("1e-8"))
       ELSE LET q == TLCEval(PPESolution(c, s, nb)) IN
            \/ q = <<>>
            \/ near(q, Ids(s), R("1e-8"))
            \* what holds pent particles together is hard to tell if the fluid gives way to little
            \/ LET pent == Pent(c, s, nb) IN pent # {} /\ near(q, Ids(s) \ pent, R("1e-8")) /\ near(q, pent, R("2e-6"))
\* An equation without a solution ends the run: it makes no snapshot of such a step.
UnsolvableRefused == Pressed => ~Hopeless(c, s, nb)
ExplicitPressureConforms == Compared("correct") /\ c.method = "Explicit" =>
    LET sc == TLCEval(RMax(PScale, MaxOf(Zero, [i \in Ids(s) |-> (c.cs (.) c.cs) (.) s.rho[i]]))) IN
    \A i \in Ids(s) : NearlyEqual(Snap.p[i], s.p[i], sc)
PressureNeverNegative == pc = "end" => \A i \in Ids(s) : Zero \preceq Snap.p[i]
PressureZeroWhereIgnored == pc = "end" => \A i \in Ids(s) :
    /\ Snap.type[i] = Ghost => Snap.p[i] = Zero
    /\ c.method = "Implicit" => (Snap.bc[i] # Inner => Snap.p[i] = Zero)
    /\ c.method = "Implicit" => (Snap.type[i] = Dummy => Snap.p[i] = Zero)

=============================================================================
