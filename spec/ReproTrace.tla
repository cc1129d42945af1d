----------------------------- MODULE ReproTrace -----------------------------
(***************************************************************************)
(* Conformance to MPSTwin, for what is no part of the input: the same      *)
(* settings and particles, run again and again in other circumstances      *)
(* (contents of fresh memory, of the stack, of uninitialised variables;    *)
(* working directory, names and paths, environment, clock, processor       *)
(* count).  A recording has for each of these runs the exit status and the *)
(* fingerprint of every snapshot file.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Real64
CONSTANT TraceFile
Runs == ReadTrace(TraceFile)
VARIABLES run, k         \* circumstance k of the run has been compared with the first one
Run == Runs[run]
TInit == run \in 1..Len(Runs) /\ k = 1
TNext == /\ k < Len(Run.again) /\ k' = k + 1 /\ run' = run
         /\ k + 1 = Len(Run.again) => PrintT(<<"TALLY", run, Run.name, [repeated |-> Len(Run.again) - 1, files |-> Len(Run.again[1].files)]>>)
TSpec == TInit /\ [][TNext]_<<run, k>>

This == Run.again[k]
First == Run.again[1]
EndsByItself == ~This.hung
SomethingWritten == Len(First.files) > 0
SameEnd == This.exit = First.exit
SameFiles == [m \in 1..Len(This.files) |-> This.files[m].name] = [m \in 1..Len(First.files) |-> First.files[m].name]
SameContents == SameFiles => \A m \in 1..Len(First.files) : This.files[m].print = First.files[m].print
SameWarnings == This.warnings = First.warnings
=============================================================================
