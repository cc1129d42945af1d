------------------------------ MODULE LoadTrace ------------------------------
(***************************************************************************)
(* Loading of particle files (property C15).  A recording is one set of    *)
(* particles, what was left out of the file, and what the program made of  *)
(* the file: the first snapshot and one step that makes the densities      *)
(* visible.  Or it is a file that has to be refused.                       *)
(***************************************************************************)
EXTENDS MPSTrace

\* (RhoOf in TraceCommon says which density a particle has; LoadedAsGiven what is in the first snapshot.)

\* The density a particle must have had, from the equation of state of the step.
SeenRho(q, i) == (q.p[i] (.) c.n0N) (/) ((c.cs (.) c.cs) (.) (q.nd[i] (-) c.n0N))
Shows(q, i) == (R("1.05") (.) c.n0N) \prec q.nd[i]
DensitiesLoaded == Shaped[run] /\ Run.soundspeed /\ Len(Run.snaps) >= 2 /\ k = 2 /\ pc = "begin" =>
    LET q == Run.snaps[2]
        rho == RhoOf(Run)
    IN \A i \in 1..N : q.type[i] # Ghost /\ Shows(q, i) => RAbs(SeenRho(q, i) (-) rho[i]) \preceq (R("1e-9") (.) rho[i])
\* (The density of a particle shows only if it is pressed; the scenarios are made so that most are.)
=============================================================================
