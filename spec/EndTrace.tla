------------------------------ MODULE EndTrace ------------------------------
(***************************************************************************)
(* How a run ends (property C24): by itself, after all steps, or with a    *)
(* nonzero status and a message; never by a signal, never not at all.      *)
(***************************************************************************)
EXTENDS TraceCommon
TInit == run \in 1..Len(Runs) /\ k = 0
TNext == k = 0 /\ k' = 1 /\ UNCHANGED run
         /\ PrintT(<<"TALLY", run, Run.name, [ended |-> 1, gaveup |-> IF Run.exit = 0 THEN 0 ELSE 1]>>)
TSpec == TInit /\ [][TNext]_<<run, k>>

EndsByItself == ~Run.hung
NoSignal == Run.exit >= 0
NoCorruption == ~Run.sanitizer     \* reads or writes outside of what it owns
AllStepsOrTold == IF Run.exit = 0 THEN Run.reported = StepsOf(Run) /\ Len(Run.snaps) = StepsOf(Run) + 1 ELSE Run.message
\* whatever happens, snapshots list all particles
Listed == \A m \in 1..Len(Run.snaps) : Run.snaps[m].ok => Len(Run.snaps[m].type) = Len(Run.type)
=============================================================================
