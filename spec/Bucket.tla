-------------------------------- MODULE Bucket --------------------------------
(***************************************************************************)
(* The neighbour search as the program does it: linked lists of particles  *)
(* per cell (arrays first, last and next over cell and particle numbers),  *)
(* and a search through the 27 (in 2D 9) cells around a particle.          *)
(*                                                                         *)
(* Coordinates are integers here (every position is a multiple of some     *)
(* unit); re is an integer number of units.  One search is: Clear, then    *)
(* Store each particle in turn, then Look up.  Between two searches the    *)
(* particles move anywhere, so the arrays hold the remains of the last     *)
(* search when the next begins.                                            *)
(*                                                                         *)
(* The program calculates the distance of a particle from the origin of    *)
(* the domain, and with it the number of its cell, in floating point: it   *)
(* may be off by up to Slack units.  So cells are wider than the radius,   *)
(* by Wider units; without that, two particles closer than the radius      *)
(* could be found two cells apart.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Origins,    \* set of domain origins, <<x, y>>
          Extents,    \* set of domain extents, <<lx, ly>>
          Radii,      \* set of search radii
          Slack, Wider,
          NP,         \* number of particles
          Searches    \* number of searches

VARIABLES dom, ext, re, pos, off, live, first, last, next, pc, cur, nbrs, round

vars == <<dom, ext, re, pos, off, live, first, last, next, pc, cur, nbrs, round>>

P == 1..NP
None == 0

\* Truncating division as in C, for the non-negative numbers it is used on
Side == re + Wider
NumX == (ext[1] \div Side) + 3
NumY == (ext[2] \div Side) + 3
Num  == NumX * NumY
\* off[i] is the distance from the origin as the program sees it
Cell(i) == << (off[i][1] \div Side) + 1, (off[i][2] \div Side) + 1 >>
Index(cx, cy) == cx + cy * NumX

Inside(p) == /\ dom[1] <= p[1] /\ p[1] <= dom[1] + ext[1]
             /\ dom[2] <= p[2] /\ p[2] <= dom[2] + ext[2]

\* places in the domain and one step outside of it
Places == { <<x, y>> : x \in (dom[1]-1)..(dom[1]+ext[1]+1), y \in (dom[2]-1)..(dom[2]+ext[2]+1) }

\* What the distance from the origin may come out as.  (Rounding is monotonous: it leads nobody out of the domain.)
Into(a, c) == IF c < 0 THEN 0 ELSE IF c > ext[a] THEN ext[a] ELSE c
Seen(p) == IF ~Inside(p) THEN {<<0, 0>>}
           ELSE {<<Into(1, p[1] - dom[1] + e), Into(2, p[2] - dom[2] + d)>> : e, d \in -Slack..Slack}
RECURSIVE Views(_)
Views(i) == IF i = 0 THEN {<<>>} ELSE {Append(v, o) : v \in Views(i - 1), o \in Seen(pos[i])}
Views1 == Views(NP)
Rounded == off' \in (Views1)'

Dist2(p, q) == (p[1]-q[1])*(p[1]-q[1]) + (p[2]-q[2])*(p[2]-q[2])

Init ==
    /\ dom \in Origins /\ ext \in Extents /\ re \in Radii
    /\ pos \in [P -> Places] /\ off \in Views1
    /\ live \in [P -> BOOLEAN]
    /\ first = [b \in 0..(Num-1) |-> None] /\ last = first
    /\ next = [i \in P |-> None]
    /\ pc = "store" /\ cur = 1 /\ round = 1
    /\ nbrs = [i \in P |-> {}]

Store ==
    /\ pc = "store" /\ cur <= NP
    /\ cur' = cur + 1
    /\ IF live[cur] /\ Inside(pos[cur])
       THEN LET b == Index(Cell(cur)[1], Cell(cur)[2]) IN
            /\ IF last[b] = None THEN first' = [first EXCEPT ![b] = cur] /\ UNCHANGED next
                                 ELSE next' = [next EXCEPT ![last[b]] = cur] /\ UNCHANGED first
            /\ last' = [last EXCEPT ![b] = cur]
            /\ UNCHANGED live
       ELSE live' = [live EXCEPT ![cur] = FALSE] /\ UNCHANGED <<first, last, next>>
    /\ UNCHANGED <<dom, ext, re, pos, off, pc, nbrs, round>>

RECURSIVE Chain(_, _)
Chain(j, acc) == IF j = None \/ j \in acc THEN acc ELSE Chain(next[j], acc \cup {j})

Found(i) ==
    LET cc == Cell(i) IN
    UNION { { j \in Chain(first[Index(cx, cy)], {}) : j # i /\ Dist2(pos[i], pos[j]) < re * re } :
            cx \in (cc[1]-1)..(cc[1]+1), cy \in (cc[2]-1)..(cc[2]+1) }

Lookup ==
    /\ pc = "store" /\ cur = NP + 1
    /\ nbrs' = [i \in P |-> IF live[i] THEN Found(i) ELSE nbrs[i]]
    /\ pc' = "moved" /\ UNCHANGED <<dom, ext, re, pos, off, live, first, last, next, cur, round>>

Move ==
    /\ pc = "moved" /\ round < Searches
    /\ pos' \in [P -> Places] /\ UNCHANGED <<dom, ext, re>> /\ Rounded
    \* the next search begins by clearing all lists
    /\ first' = [b \in 0..(Num-1) |-> None] /\ last' = first'
    /\ next' = [i \in P |-> None]
    /\ pc' = "store" /\ cur' = 1 /\ round' = round + 1
    /\ UNCHANGED <<live, nbrs>>

Next == Store \/ Lookup \/ Move
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* No list access is out of range, even in the cells around the outermost particles.
InRange == \A i \in P : live[i] /\ Inside(pos[i]) =>
    LET cc == Cell(i) IN
    \A cx \in (cc[1]-1)..(cc[1]+1), cy \in (cc[2]-1)..(cc[2]+1) : Index(cx, cy) \in 0..(Num-1)

\* C01: the search is exact.
Exact == pc = "moved" =>
    \A i \in P : live[i] => nbrs[i] = { j \in P : live[j] /\ j # i /\ Dist2(pos[i], pos[j]) < re * re }

\* C02: exactly those inside are left.
Outside(p) == \E a \in 1..2 : p[a] < dom[a] \/ dom[a] + ext[a] < p[a]
Left == pc = "moved" => \A i \in P : live[i] => ~Outside(pos[i])

\* ... and nobody else is lost: the faces of the domain belong to it.
OnlyOutsideLeave == [][\A i \in P : live[i] /\ ~live'[i] => Outside(pos[i])]_vars

\* Every stored particle is in exactly the list of its cell.
Chains == pc = "moved" => \A i \in P : live[i] =>
    \A b \in 0..(Num-1) : (i \in Chain(first[b], {})) <=> (b = Index(Cell(i)[1], Cell(i)[2]))
=============================================================================
