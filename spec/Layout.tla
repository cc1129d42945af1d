------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The arrangements of the generators on the integer lattice (C20).        *)
(*                                                                         *)
(* A generator has a container (a box of sites, open at the top), a block  *)
(* of fluid in it, and four layers around the container up to its top:     *)
(* two of wall, then two of dummy wall.  rim is the number of topmost rows *)
(* in which the outer layers are wall, too.                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

Fluid == 1
Wall  == 2
Dummy == 3
None  == 0

\* boxes are <<x first, x last, y first, y last>>
Arrangements == [
    dambreak    |-> [container |-> <<0, 40, 0, 24>>,     fluid |-> <<0, 10, 0, 20>>,    rim |-> 3],
    hydrostatic |-> [container |-> <<-15, 14, 0, 49>>,   fluid |-> <<-15, 14, 0, 39>>,  rim |-> 0] ]

In(b, x, y) == b[1] <= x /\ x <= b[2] /\ b[3] <= y /\ y <= b[4]
Grow(b, m) == <<b[1] - m, b[2] + m, b[3] - m, b[4]>>   \* to all sides but the top

KindAt(a, x, y) ==
    IF In(a.fluid, x, y) THEN Fluid
    ELSE IF In(a.container, x, y) THEN None
    ELSE IF In(Grow(a.container, 2), x, y) THEN Wall
    ELSE IF In(Grow(a.container, 4), x, y) THEN (IF y > a.container[4] - a.rim THEN Wall ELSE Dummy)
    ELSE None

Around(a) == LET b == Grow(a.container, 6) IN (b[1]..b[2]) \X (b[3]..(b[4] + 2))
Sites(a) == {p \in Around(a) : KindAt(a, p[1], p[2]) # None}

-----------------------------------------------------------------------------
(* What the arrangement is for: an imagined particle that moves from site  *)
(* to neighbouring site, starting in the fluid.  It counts the solid       *)
(* layers it has passed; to get out of the container sideways or down, it  *)
(* needs to pass four.                                                     *)

VARIABLES arr, at, solid
lvars == <<arr, at, solid>>
A == Arrangements[arr]

LInit == /\ arr \in DOMAIN Arrangements
         /\ at \in {p \in Around(A) : KindAt(A, p[1], p[2]) = Fluid}
         /\ solid = 0
Move == \E dx, dy \in -1..1 :
          LET p == <<at[1] + dx, at[2] + dy>>
              hits == KindAt(A, p[1], p[2]) \in {Wall, Dummy}
          IN /\ p \in Around(A)
             /\ p[2] <= A.container[4]          \* over the top there is nothing to pass
             /\ solid < 5
             /\ at' = p
             /\ solid' = IF hits THEN solid + 1 ELSE IF In(A.container, p[1], p[2]) THEN 0 ELSE solid
             /\ UNCHANGED arr
LNext == Move
LSpec == LInit /\ [][LNext]_lvars

InTheOpen == at \in Around(A) /\ ~In(A.container, at[1], at[2]) /\ KindAt(A, at[1], at[2]) = None
FourLayers == InTheOpen => solid >= 4
\* no holes: the sites are exactly the ones below the top, up to four layers around the container, without its empty part
NoHoles(a) == \A p \in Around(a) :
    (KindAt(a, p[1], p[2]) # None) <=>
        (In(Grow(a.container, 4), p[1], p[2]) /\ (In(a.container, p[1], p[2]) => In(a.fluid, p[1], p[2])))
ASSUME \A g \in DOMAIN Arrangements : NoHoles(Arrangements[g])
=============================================================================
