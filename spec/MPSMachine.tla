------------------------------ MODULE MPSMachine ------------------------------
(***************************************************************************)
(* One run of the simulation as a state machine: every phase of a time     *)
(* step is an action, in the order in which the program performs them.     *)
(*                                                                         *)
(* Each action X is written X(st), a step from the particle state st.  The *)
(* machine itself always continues from its own state (st = s); the trace  *)
(* specification MPSTrace continues from what the program has written.     *)
(***************************************************************************)
EXTENDS MPS

VARIABLES c,     \* parameters (constant during a run)
          s,     \* particle state
          nb,    \* neighbour lists of the last search
          todo,  \* colliding pairs not yet handled in this step
          left,  \* particles that left the domain in this step
          pc     \* next phase

mvars == <<c, s, nb, todo, left, pc>>

MInit(c0, s0) ==
    /\ c = c0 /\ s = s0
    /\ nb = <<>> /\ todo = {} /\ left = {}
    /\ pc = "begin"

Goto(to) == pc' = to /\ UNCHANGED c

SearchFrom(st, g) == /\ s' = g
                     /\ nb' = Neighbours(g, c.reMax)

Begin(st) ==
    /\ pc = "begin" /\ Goto("predict")
    /\ SearchFrom(st, ToGhosts(c, st))
    /\ left' = Leavers(c, st)
    /\ UNCHANGED todo

PredictMove(st) ==
    /\ pc = "predict" /\ Goto("search2")
    /\ s' = Predict(c, st, nb)
    /\ UNCHANGED <<nb, todo, left>>

Search2(st) ==
    /\ pc = "search2" /\ Goto("collide")
    /\ LET g == ToGhosts(c, st)
           n == Neighbours(g, c.reMax)
       IN /\ s' = g /\ nb' = n
          /\ todo' = CollidingPairs(c, g, n)
    /\ left' = left \cup Leavers(c, st)

CollidePair ==
    /\ pc = "collide"
    /\ \E q \in todo : s' = Collide(c, s, q) /\ todo' = todo \ {q}
    /\ UNCHANGED <<c, nb, left, pc>>

CollideDone ==
    /\ pc = "collide" /\ todo = {} /\ Goto("search3")
    /\ UNCHANGED <<s, nb, todo, left>>

\* All collisions of the step at once, in any order; a shortcut for runs of CollidePair and CollideDone,
\* for steps in which the order does not matter.
CollideAll ==
    /\ pc = "collide" /\ Goto("search3")
    /\ s' = CollideInOrder(c, s, AnyOrder(todo))
    /\ todo' = {}
    /\ UNCHANGED <<nb, left>>

Search3(st) ==
    /\ pc = "search3" /\ Goto("density")
    /\ SearchFrom(st, ToGhosts(c, st))
    /\ left' = left \cup Leavers(c, st)
    /\ UNCHANGED todo

CountDensity(st) ==
    /\ pc = "density" /\ Goto("classify")
    /\ s' = Density(c, st, nb)
    /\ UNCHANGED <<nb, todo, left>>

ClassifySurface(st) ==
    /\ pc = "classify" /\ Goto("pressure")
    /\ s' = IF c.method = "Implicit" THEN Classify(c, st, nb) ELSE st
    /\ UNCHANGED <<nb, todo, left>>

\* A pressure equation without a unique solution ends the run.
SolvePressure(st) ==
    /\ pc = "pressure" /\ UNCHANGED <<c, nb, todo, left>>
    /\ IF c.method = "Explicit"
       THEN s' = [st EXCEPT !.p = ExplicitPressure(c, st)] /\ pc' = "correct"
       ELSE LET q == PPESolution(c, st, nb)
            IN IF q = <<>> THEN s' = st /\ pc' = "failed"
               ELSE s' = [st EXCEPT !.p = Clamped(q)] /\ pc' = "correct"

CorrectMove(st) ==
    /\ pc = "correct" /\ Goto("end")
    /\ s' = Correct(c, st, nb)
    /\ UNCHANGED <<nb, todo, left>>

EndStep ==
    /\ pc = "end" /\ Goto("begin")
    /\ left' = {} /\ nb' = <<>>
    /\ UNCHANGED <<s, todo>>

MNext ==
    \/ Begin(s) \/ PredictMove(s) \/ Search2(s)
    \/ CollidePair \/ CollideDone
    \/ Search3(s) \/ CountDensity(s) \/ ClassifySurface(s) \/ SolvePressure(s)
    \/ CorrectMove(s) \/ EndStep

-----------------------------------------------------------------------------
(* What every step guarantees, whatever the parameters *)

\* C03: walls never move
WallsStay ==
    [][\A i \in Ids(s) : s.type[i] \in {Wall, Dummy} => s'.x[i] = s.x[i] /\ s'.v[i] = s.v[i]]_mvars

\* C02: a ghost stays one, and is frozen
GhostsFrozen ==
    [][\A i \in Ids(s) : s.type[i] = Ghost =>
          s'.type[i] = Ghost /\ s'.x[i] = s.x[i] /\ s'.v[i] = s.v[i]]_mvars

\* C04: nobody appears, disappears or changes identity, except for turning into a ghost
Conserved ==
    [][/\ Len(s'.type) = Len(s.type) /\ s'.ft = s.ft /\ s'.rho = s.rho
       /\ \A i \in Ids(s) : s'.type[i] \in {s.type[i], Ghost}]_mvars

\* C02: the particles that are left after a search are in the domain, and only those outside were taken out
SearchCleans ==
    pc \in {"predict", "collide", "density", "classify", "pressure", "correct"} =>
        \A i \in Ids(s) : pc # "collide" /\ Live(s, i) => InDomain(c, s.x[i])

LeaversWarned ==
    [][pc # "end" => \A i \in Ids(s) : (s.type[i] # Ghost /\ s'.type[i] = Ghost) <=> i \in left' \ left]_mvars

\* C10, C11: pressure is never negative, and 0 where nothing is solved for
PressureOK ==
    pc = "correct" => \A i \in Ids(s) :
        /\ Zero \preceq s.p[i]
        /\ s.type[i] = Ghost => s.p[i] = Zero
        /\ c.method = "Implicit" => (s.bc[i] # Inner => s.p[i] = Zero)
        /\ c.method = "Explicit" => (s.nd[i] \preceq c.n0N => s.p[i] = Zero)

\* C01: neighbourhood is symmetric and irreflexive and knows no ghosts
NeighboursOK ==
    nb # <<>> => \A i \in Ids(s) : \A k \in 1..Len(nb[i]) :
        LET j == nb[i][k][1] IN
        /\ j # i
        /\ nb[i][k][2] \prec c.reMax
        /\ \E m \in 1..Len(nb[j]) : nb[j][m] = <<i, nb[i][k][2]>>
=============================================================================
