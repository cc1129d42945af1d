---------------------------- MODULE RefusedTrace ----------------------------
(***************************************************************************)
(* Inputs that have to be refused: the program ends with a nonzero status  *)
(* and a message on stderr before it writes any snapshot.                  *)
(***************************************************************************)
EXTENDS Real64, Integers, Sequences, TLC
CONSTANT TraceFile
Runs == ReadTrace(TraceFile)
VARIABLES run, k
Run == Runs[run]
TInit == run \in 1..Len(Runs) /\ k = 0
TNext == k = 0 /\ k' = 1 /\ UNCHANGED run
         /\ PrintT(<<"TALLY", run, Run.name, [refused |-> 1]>>)
TSpec == TInit /\ [][TNext]_<<run, k>>

Refused == ~Run.hung /\ Run.exit # 0
Told == Run.message
NothingWritten == Run.snapshots = 0
=============================================================================
