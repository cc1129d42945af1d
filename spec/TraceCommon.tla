----------------------------- MODULE TraceCommon -----------------------------
(***************************************************************************)
(* Recorded runs of the program, as lib/mpsv/sim.py writes them, and what  *)
(* can be said about a recording without computing any physics.            *)
(***************************************************************************)
EXTENDS MPS

CONSTANT TraceFile

Runs == ReadTrace(TraceFile)

VARIABLES run,   \* which run
          k      \* a snapshot of it; steps lead from snapshot k-1 to snapshot k

Run  == Runs[run]
Snap == Run.snaps[k]
Prev == Run.snaps[k-1]
N    == Len(Run.type)

-----------------------------------------------------------------------------
(* Shape of the recording: a precondition of everything else *)

ShapeOf(r) ==
    /\ Len(r.snaps) >= 1
    /\ \A m \in 1..Len(r.snaps) :
         LET q == r.snaps[m] IN
         /\ q.ok
         /\ Len(q.type) = Len(r.type) /\ Len(q.ft) = Len(r.type)
         /\ Len(q.x) = Len(r.type) /\ Len(q.v) = Len(r.type)
         /\ Len(q.p) = Len(r.type) /\ Len(q.nd) = Len(r.type) /\ Len(q.bc) = Len(r.type)
         /\ Len(q.ratio) = Len(r.type)

\* (evaluated once for each run)
Shaped == TLCEval([r \in 1..Len(Runs) |-> ShapeOf(Runs[r])])

\* The number of steps a run makes (its output period is 0, so each step is written).
RECURSIVE StepsFrom(_, _, _, _)
StepsFrom(t, end, dt, n) == IF t \prec end /\ n < 100000 THEN StepsFrom(t (+) dt, end, dt, n + 1) ELSE n
StepsOf(r) == StepsFrom(r.t0, r.set["endTime"], r.set["dt"], 0)

\* The program may give up on a pressure equation that its solver cannot solve; it says so, and ends with an error.
GaveUp(r) == r.exit \notin {0} /\ r.exit > 0 /\ r.solverfailed

CompleteRun(r) ==
    \/ r.exit = 0 /\ Len(r.snaps) = StepsOf(r) + 1
    \/ r.mayfail /\ GaveUp(r)

\* A particle has the density of the file, if that gives one.
RhoOf(r) == TLCEval([i \in 1..Len(r.type) |->
    IF Len(r.rho) = 0 \/ r.rho[i] \prec Zero THEN r.set["defaultDensity"] ELSE r.rho[i]])

StateOf(r, m) == [ type |-> r.snaps[m].type, ft |-> r.snaps[m].ft, rho |-> RhoOf(r),
                   x |-> r.snaps[m].x, v |-> r.snaps[m].v, p |-> r.snaps[m].p,
                   nd |-> r.snaps[m].nd, bc |-> r.snaps[m].bc ]

Shape    == Shaped[run]
Completed == TLCEval([r \in 1..Len(Runs) |-> Shaped[r] => CompleteRun(Runs[r])])
Complete == Completed[run]

\* first snapshot: what was loaded
LoadedAsGiven ==
    Shaped[run] =>
    LET q == Run.snaps[1]
        near(a, b) == RAbs(a (-) b) \preceq (R("1e-12") (.) RAbs(b))
    IN /\ q.type = Run.type /\ q.ft = Run.ft /\ near(q.time, Run.t0)
       /\ \A i \in 1..N : \A d \in 1..3 : near(q.x[i][d], Run.x[i][d]) /\ near(q.v[i][d], Run.v[i][d])
=============================================================================
