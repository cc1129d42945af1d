------------------------------ MODULE ParTrace ------------------------------
(***************************************************************************)
(* The parallel loops of recorded runs (property C21).  Each recording has *)
(* the footprints Run.loops: for every stretch between two barriers, the   *)
(* accesses of every thread to every byte that anybody writes (bytes with  *)
(* the same accesses are one cell).  Threads and iterations are the same   *)
(* thing here, as there are at least as many threads as iterations.        *)
(* Run.others are the same run under other schedules.                      *)
(***************************************************************************)
EXTENDS TraceCommon

ptvars == <<run, k>>

\* Accesses of a cell: [t |-> thread, w |-> write, a |-> atomic, l |-> lock it holds, or 0].
\* (ParLoops!Conflict, but for what atomics and locks keep apart.)
Clash(a, b) == /\ a.t # b.t /\ (a.w \/ b.w)
               /\ ~(a.a /\ b.a)
               /\ ~(a.l # 0 /\ a.l = b.l)
Clashes(cell) == {<<i, j>> \in (1..Len(cell.acc)) \X (1..Len(cell.acc)) : i < j /\ Clash(cell.acc[i], cell.acc[j])}

\* Goes through the loops, then the other schedules
Steps == Len(Run.loops) + Len(Run.others)
TInit == run \in 1..Len(Runs) /\ k = 1
TNext == \/ k < Steps /\ k' = k + 1 /\ UNCHANGED run
         \/ /\ k = Steps \/ (Steps = 0 /\ k = 1)
            /\ PrintT(<<"TALLY", run, Run.name, [loops |-> Len(Run.loops), schedules |-> Len(Run.others),
                    crowded |-> Cardinality({m \in 1..Len(Run.loops) : Len(Run.loops[m].cells) > 1})]>>)
            /\ k' = Steps + 2 /\ UNCHANGED run
TSpec == TInit /\ [][TNext]_ptvars

AtLoop == k <= Len(Run.loops)
RaceFree == AtLoop =>
    LET L == Run.loops[k] IN \A m \in 1..Len(L.cells) : Clashes(L.cells[m]) = {}

AtOther == k > Len(Run.loops) /\ k <= Steps
Other == Run.others[k - Len(Run.loops)]
SameResult == AtOther =>
    /\ Other.exit = Run.exit /\ Other.warn = Run.warn /\ Len(Other.snaps) = Len(Run.snaps)
    /\ Shaped[run] => ShapeOf(Other) /\ \A m \in 1..Len(Run.snaps) :
        LET a == Run.snaps[m]
            b == Other.snaps[m]
        IN /\ a.type = b.type /\ a.bc = b.bc /\ a.ft = b.ft /\ a.time = b.time
           \* to the last bit: sums are made in one order, whoever makes them
           /\ a.x = b.x /\ a.v = b.v /\ a.p = b.p /\ a.nd = b.nd
=============================================================================
