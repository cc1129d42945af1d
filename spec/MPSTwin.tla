------------------------------- MODULE MPSTwin -------------------------------
(***************************************************************************)
(* Two runs of the same input (property C27): the second copy of the       *)
(* machine has the same parameters and starts from the same particles, and *)
(* makes its own choices - the order in which it handles the colliding     *)
(* pairs.  Whenever both have finished the same step, their particles are  *)
(* the same, as long as no fluid particle was in several collisions at     *)
(* once: the only choice the specification leaves is of no consequence     *)
(* then, and everything else is determined by the input.                   *)
(***************************************************************************)
EXTENDS MPSMachine
VARIABLES s2, nb2, todo2, left2, pc2, n1, n2, alone
Other == INSTANCE MPSMachine WITH s <- s2, nb <- nb2, todo <- todo2, left <- left2, pc <- pc2
twvars == <<mvars, s2, nb2, todo2, left2, pc2, n1, n2, alone>>
mine == <<s, nb, todo, left, pc>>
yours == <<s2, nb2, todo2, left2, pc2>>

TwinInit(setups) == \E q \in setups : MInit(q[1], q[2]) /\ Other!MInit(q[1], q[2]) /\ n1 = 0 /\ n2 = 0 /\ alone = TRUE
First(steps) ==
    /\ n1 < steps /\ MNext
    /\ n1' = IF pc = "end" THEN n1 + 1 ELSE n1
    /\ alone' = (alone /\ ~OrderMatters(s', todo'))
    /\ UNCHANGED <<yours, n2>>
\* (the second does not run ahead: that would add interleavings of independent runs, and no new states of either)
Second(steps) ==
    /\ n2 < n1 /\ Other!MNext
    /\ n2' = IF pc2 = "end" THEN n2 + 1 ELSE n2
    /\ UNCHANGED <<mine, n1, alone>>
TwinNext(steps) == (First(steps) /\ n1 = n2) \/ Second(steps)

Reproducible == n1 = n2 /\ pc2 = pc /\ alone => s2 = s /\ left2 = left
=============================================================================
