---------------------------- MODULE NeighborTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded neighbour searches: a run is a sequence of      *)
(* searches on moving particles by one searcher; after each search the     *)
(* neighbour lists are what the phase "search" of module MPS makes them.   *)
(***************************************************************************)
EXTENDS MPS

CONSTANT TraceFile
Runs == ReadTrace(TraceFile)

VARIABLES run, k, type     \* run, search, types before that search
tvars == <<run, k, type>>

Run == Runs[run]
Srch == Run.searches[k]
Box == [lo |-> Run.lo, hi |-> Run.hi]

Shape == /\ Run.ok
         /\ \A m \in 1..Len(Run.searches) :
              Len(Run.searches[m].type) = Len(Run.type) /\ Len(Run.searches[m].nbrs) = Len(Run.type)

TInit == run \in 1..Len(Runs) /\ k = 1 /\ type = Runs[run].type
TNext ==
    \/ /\ Shape /\ k <= Len(Run.searches)
       /\ k' = k + 1 /\ type' = Srch.type /\ UNCHANGED run
    \/ /\ Shape /\ k = Len(Run.searches) + 1
       /\ PrintT(<<"TALLY", run, Run.name, [searches |-> Len(Run.searches), particles |-> Len(Run.type),
                   neighbours |-> LET q == IF Run.searches = <<>> THEN <<>> ELSE Run.searches[1].nbrs IN
                                  IF Len(q) = 0 THEN 0 ELSE Len(q[1])]>>)
       /\ k' = k + 1 /\ UNCHANGED <<run, type>>
TSpec == TInit /\ [][TNext]_tvars

Checking == Shape /\ k <= Len(Run.searches)
Before == [type |-> type, x |-> Srch.x]
After  == ToGhosts(Box, Before)

GhostsConform == Checking => Srch.type = After.type

Ids1 == 1..Len(Run.type)
\* exactly the particles strictly closer than the radius, each once, never itself, no ghosts; true distances
NeighboursConform == Checking =>
    LET want == Neighbours([After EXCEPT !.type = Srch.type], Run.re) IN
    \A i \in Ids1 : Srch.type[i] # Ghost =>
        LET got == Srch.nbrs[i]
            far == R("1e-12") (.) Run.re
            D(j) == VNorm(VSub(Srch.x[j], Srch.x[i]))
            Hinges(j) == ~Run.exact /\ RAbs(D(j) (-) Run.re) \preceq far
            ids == {got[m][1] + 1 : m \in 1..Len(got)}
        IN /\ Cardinality(ids) = Len(got)
           /\ \A m \in 1..Len(got) :
                 LET j == got[m][1] + 1 IN
                 /\ j \in Ids1 /\ j # i
                 /\ Srch.type[j] # Ghost
                 /\ RAbs(got[m][2] (-) D(j)) \preceq (R("1e-13") (.) D(j))
                 /\ D(j) \prec Run.re \/ Hinges(j)
           /\ \A m \in 1..Len(want[i]) :
                 \/ want[i][m][1] \in ids
                 \/ Hinges(want[i][m][1])
=============================================================================
