----------------------------- MODULE EquivTrace -----------------------------
(***************************************************************************)
(* Pairs of recorded runs (property C25): Run.a is a setup, Run.b the same *)
(* setup in another description Run.sym.  The behaviour goes through the   *)
(* snapshots of both.                                                      *)
(***************************************************************************)
EXTENDS Symmetry

CONSTANT TraceFile
Runs == ReadTrace(TraceFile)
VARIABLES run, k
evars == <<run, k>>
Run == Runs[run]
A == Run.a
B == Run.b
Y == Run.sym
N == Len(A.type)

ShapeOf(r) ==
    /\ Len(r.snaps) >= 1
    /\ \A m \in 1..Len(r.snaps) :
         LET q == r.snaps[m] IN
         /\ q.ok
         /\ {Len(q.type), Len(q.ft), Len(q.x), Len(q.v), Len(q.p), Len(q.nd), Len(q.bc), Len(q.ratio)} = {N}

Both == ShapeOf(A) /\ ShapeOf(B)
Last == IF Len(A.snaps) < Len(B.snaps) THEN Len(A.snaps) ELSE Len(B.snaps)

TInit == run \in 1..Len(Runs) /\ k = 1
TNext == \/ Both /\ k < Last /\ k' = k + 1 /\ UNCHANGED run
         \/ /\ (IF Both THEN k = Last ELSE k = 1)
            /\ PrintT(<<"TALLY", run, Run.name, [pairs |-> IF Both THEN Last ELSE 0]>>)
            /\ k' = 1000 + k /\ UNCHANGED run
TSpec == TInit /\ [][TNext]_evars

At == Both /\ k <= Last

Shape == Both
GaveUp(r) == r.exit > 0 /\ r.solverfailed
\* The same number of steps, unless a solver gives up.
SameLength == k = 1 =>
    \/ A.exit = 0 /\ B.exit = 0 /\ Len(A.snaps) = Len(B.snaps)
    \/ A.mayfail /\ (GaveUp(A) \/ GaveUp(B))

Bare(q, r) == [type |-> q.type, ft |-> q.ft, x |-> q.x, v |-> q.v, p |-> q.p, nd |-> q.nd, bc |-> q.bc,
               rho |-> [i \in 1..N |-> One]]
Image == SymState(Y, Bare(A.snaps[k], A))
Real  == B.snaps[k]

Eps == R("1e-6")
Close(a, b, scale) == RAbs(a (-) b) \preceq (Eps (.) scale)
RECURSIVE Greatest(_)
Greatest(vs) == IF vs = <<>> THEN Zero ELSE RMax(VNorm(Head(vs)), Greatest(Tail(vs)))
Dt == B.set["dt"]
L0 == B.set["particleDistance"]
\* Speeds and lengths that matter; a pressure changes a speed by dt p / (rho l0).
SpeedScale == MaxOf((R("0.01") (.) L0) (/) Dt, <<Greatest(Image.v), Greatest(Real.v)>>)

TimeSame == At => RAbs(Real.time (-) (Y.tim (.) A.snaps[k].time)) \preceq (R("1e-12") (.) (RAbs(Real.time) (+) Dt))
TypesSame == At => Real.type = Image.type
FluidTypesSame == At => Real.ft = Image.ft
VelocitiesSame == At => LET im == Image
                            sc == SpeedScale IN \A j \in 1..N : \A d \in 1..3 : Close(Real.v[j][d], im.v[j][d], sc)
PositionsSame == At => LET im == Image
                           sc == RMax(L0, SpeedScale (.) Dt) IN
    \A j \in 1..N : \A d \in 1..3 : Close(Real.x[j][d], im.x[j][d], sc)
DensitiesSame == At => LET im == Image IN
    \A j \in 1..N : /\ Close(Real.nd[j], im.nd[j], RMax(One, im.nd[j]))
                    /\ Close(Real.ratio[j], A.snaps[k].ratio[Y.ren[j]], RMax(One, Real.ratio[j]))
BoundarySame == At => Real.bc = Image.bc
PressuresSame == At => LET im == Image
                           sc == MaxOf(MaxOf(Zero, im.p), Real.p) IN
    \A j \in 1..N : RAbs(Real.p[j] (-) im.p[j]) \preceq (R("1e-5") (.) sc)

\* the same particles are reported to leave in the same step
WarnedIds(r, m) == {r.warn[m][h] + 1 : h \in 1..Len(r.warn[m])}
WarningsSame == At /\ k <= Len(A.warn) /\ k <= Len(B.warn) =>
    WarnedIds(A, k) = {IF j \in 1..N THEN Y.ren[j] ELSE 0 : j \in WarnedIds(B, k)}
=============================================================================
