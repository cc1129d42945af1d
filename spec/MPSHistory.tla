------------------------------ MODULE MPSHistory ------------------------------
(***************************************************************************)
(* Conformance of recorded runs to MPSAbstract: what every run keeps,      *)
(* whatever the physics does.  A behaviour goes through the snapshots of   *)
(* one run.  Between two snapshots the program has taken out who was       *)
(* outside, moved, taken out who had left meanwhile (two searches, which   *)
(* cannot be told apart), and moved again: four steps of MPSAbstract, of   *)
(* which the last ends at the next snapshot.  Conforms says that these     *)
(* steps are indeed steps of MPSAbstract.                                  *)
(***************************************************************************)
EXTENDS TraceCommon

VARIABLES h,        \* the state of MPSAbstract
          phase     \* how far between snapshot k-1 and snapshot k

hvars == <<run, k, h, phase>>

Box == [lo |-> Run.set["domainMin"], hi |-> Run.set["domainMax"]]
OutsideOf(x) == {i \in 1..N : ~InDomain(Box, x[i])}

AtStep == phase = "end" /\ Shaped[run] /\ k >= 2 /\ k <= Len(Run.snaps)

TInit == /\ run \in 1..Len(Runs) /\ k = 1 /\ phase = "end"
         /\ h = IF Shaped[run]
                THEN [type |-> Snap.type, ft |-> Snap.ft, x |-> Snap.x, v |-> Snap.v, outside |-> OutsideOf(Snap.x), warned |-> {}]
                ELSE [type |-> <<>>, ft |-> <<>>, x |-> <<>>, v |-> <<>>, outside |-> {}, warned |-> {}]

Reported == IF k - 1 > Len(Run.warn) THEN {} ELSE {Run.warn[k-1][m] + 1 : m \in 1..Len(Run.warn[k-1])}

\* on to the next snapshot; who is outside is taken out
TTake1 == /\ phase = "end" /\ Shaped[run] /\ k < Len(Run.snaps)
          /\ k' = k + 1 /\ phase' = "moved1" /\ UNCHANGED run
          /\ h' = LET out == {i \in h.outside : h.type[i] # Ghost}
                  IN [h EXCEPT !.type = [i \in 1..N |-> IF i \in out THEN Ghost ELSE @[i]], !.warned = @ \cup out]
Late == {i \in 1..N : h.type[i] # Ghost /\ Snap.type[i] = Ghost}
\* those who leave in this step are where they left; nothing is known about the others
TMove1 == /\ phase = "moved1" /\ phase' = "taken2" /\ UNCHANGED <<run, k>>
          /\ h' = [h EXCEPT !.x = [i \in 1..N |-> IF i \in Late THEN Snap.x[i] ELSE @[i]],
                            !.v = [i \in 1..N |-> IF i \in Late THEN Snap.v[i] ELSE @[i]],
                            !.outside = {i \in 1..N : i \in (IF h.type[i] = Fluid THEN Late \cap OutsideOf(Snap.x) ELSE h.outside)}]
\* the program has taken out who was outside, and reported it
TTake2 == /\ phase = "taken2" /\ phase' = "moved2" /\ UNCHANGED <<run, k>>
          /\ h' = [h EXCEPT !.type = Snap.type, !.ft = Snap.ft, !.warned = @ \cup Reported]
TMove2 == /\ phase = "moved2" /\ phase' = "end" /\ UNCHANGED <<run, k>>
          /\ h' = [h EXCEPT !.x = Snap.x, !.v = Snap.v, !.outside = OutsideOf(Snap.x)]
TDone == /\ phase = "end"
         /\ k = Len(Run.snaps) \/ (~Shaped[run] /\ k = 1)
         /\ PrintT(<<"TALLY", run, Run.name, [steps |-> Len(Run.snaps) - 1,
               left |-> IF Shaped[run] THEN Cardinality({i \in 1..N : Snap.type[i] # Run.type[i]}) ELSE 0]>>)
         /\ k' = Len(Run.snaps) + 2 /\ UNCHANGED <<run, h, phase>>
TNext == TTake1 \/ TMove1 \/ TTake2 \/ TMove2 \/ TDone
TSpec == TInit /\ [][TNext]_hvars

Abs == INSTANCE MPSAbstract WITH type <- h.type, ft <- h.ft, rho <- <<>>, x <- h.x, v <- h.v, outside <- h.outside, warned <- h.warned
Conforms == [][Abs!ANext]_(Abs!avars)

-----------------------------------------------------------------------------
\* every snapshot lists every particle, whatever its format; prof has no fluid types
AllFormatsList == phase = "end" /\ Shaped[run] /\ k <= Len(Run.snaps) =>
    LET T == Run.texts[k]
    IN /\ \A f \in {"prof", "csv"} : T[f].ok /\ T[f].count = N /\ T[f].type = Snap.type
       /\ T["csv"].ft = Snap.ft
FluidTypesKept == AtStep => Snap.ft = Run.ft
TypesKept == AtStep => \A i \in 1..N : Snap.type[i] \in {Run.type[i], Ghost}
GhostsStay == AtStep => \A i \in 1..N : Prev.type[i] = Ghost =>
    /\ Snap.type[i] = Ghost /\ Snap.x[i] = Prev.x[i] /\ Snap.v[i] = Prev.v[i]
WallsStayPut == AtStep => \A i \in 1..N : Run.type[i] \in {Wall, Dummy} =>
    Snap.x[i] = Run.snaps[1].x[i] /\ Snap.v[i] = Run.snaps[1].v[i]

\* The same without any computation: a particle that was out of the domain in the last snapshot is a ghost in this
\* one, and over the whole run each particle that becomes a ghost is named exactly once, and nobody else.
OutsideBecomesGhost == AtStep => \A i \in 1..N :
    ~InDomain(Box, Prev.x[i]) => Snap.type[i] = Ghost
WarningsInAll == Shaped[run] /\ Run.exit = 0 =>
    LET n(i) == Cardinality({<<m, w>> \in (1..Len(Run.warn)) \X (1..MaxI(1, N)) :
                    w <= Len(Run.warn[m]) /\ Run.warn[m][w] + 1 = i})
        all == UNION {{Run.warn[m][w] + 1 : w \in 1..Len(Run.warn[m])} : m \in 1..Len(Run.warn)}
        last == Run.snaps[Len(Run.snaps)]
    IN /\ \A i \in 1..N : n(i) = IF Run.type[i] # Ghost /\ last.type[i] = Ghost THEN 1 ELSE 0
       /\ all \subseteq 1..N

TimeConforms == AtStep =>
    Snap.time = Prev.time (+) Run.set["dt"]
=============================================================================
