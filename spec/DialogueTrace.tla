---------------------------- MODULE DialogueTrace ----------------------------
(* Conformance of the real generators to Dialogue: one recording per situation; see lib/mpsv/checks/c19.py. *)
EXTENDS Dialogue, Real64
CONSTANT TraceFile
Runs == ReadTrace(TraceFile)
VARIABLE run
Run == Runs[run]
Range(f) == {f[m] : m \in DOMAIN f}

TInit == /\ run \in 1..Len(Runs)
         /\ DInit({Range(Runs[run].there)}, {Runs[run].input})
\* The machine may take an empty line in two ways, which differ only in the number of questions; one is enough here.
TNext == \/ DNext /\ UNCHANGED run /\ (pc = "read" /\ pos <= Len(input) /\ input[pos] = "" => pc' = "read")
         \/ /\ Ended /\ pc' = "compared" /\ UNCHANGED <<there, input, pos, asked, disk, run>>
            /\ PrintT(<<"TALLY", run, Run.name, [written |-> IF disk["prof"] = "new" THEN 1 ELSE 0, asked |-> asked]>>)
TSpec == TInit /\ [][TNext]_<<dvars, run>>

Conforms == Ended => /\ ~Run.hung /\ Run.exit = 0
                     /\ \A f \in Own : Run.disk[f] = disk[f]
                     /\ Run.others          \* nothing else has changed
Asks == Ended => IF "" \in Range(input) THEN (Run.asked > 0 <=> asked > 0) ELSE Run.asked = asked
\* what is written is the whole new file, the same as in a fresh directory
Whole == Ended => \A f \in Own : Run.disk[f] = "new" => Run.complete[f]
=============================================================================
