----------------------------- MODULE WriterTrace -----------------------------
(***************************************************************************)
(* Conformance of the real program to Writer.  The recording of a run is   *)
(* the sequence of what its system calls did to the files of the output    *)
(* directory and to stdout, in order, with the operations that were made   *)
(* to fail, the moment it was killed or ended, and a comparison of the     *)
(* files it left with those of an undisturbed run.                         *)
(*   begin, whole (all bytes have been written), undone (a complete file   *)
(*   is truncated, replaced or removed), fault, hiccup (a call was interrupted), *)
(*   say (a report was printed),                                           *)
(*   end (k: 0 ok, 1 failed, 2 killed)                                     *)
(***************************************************************************)
EXTENDS Writer, Sequences, TLC, Real64
CONSTANT TraceFile
Runs == ReadTrace(TraceFile)
VARIABLES run, i
Run == Runs[run]
Ev == Run.events[i]
File == <<Ev.g, Ev.f>>

TInit == run \in 1..Len(Runs) /\ i = 1 /\ WInit

Apply ==
    /\ i <= Len(Run.events)
    /\ i' = i + 1
    /\ disk' = IF Ev.e \in {"begin", "undone"} THEN [disk EXCEPT ![File] = "part"]
               ELSE IF Ev.e = "whole" THEN [disk EXCEPT ![File] = "whole"] ELSE disk
    /\ bad' = IF Ev.e = "fault" THEN bad \cup {File} ELSE IF Ev.e = "whole" THEN bad \ {File} ELSE bad
    /\ trouble' = (trouble \/ Ev.e \in {"fault", "hiccup"})
    /\ said' = IF Ev.e = "say" THEN Ev.k ELSE said
    /\ status' = IF Ev.e = "end" THEN <<"ok", "failed", "killed">>[Ev.k + 1] ELSE status
    /\ told' = IF Ev.e = "end" THEN Run.message /\ Ev.k = 1 ELSE told
    /\ run' = run
    /\ i = Len(Run.events) => PrintT(<<"TALLY", run, Run.name,
           [faults |-> IF trouble THEN 1 ELSE 0, killed |-> IF status' = "killed" THEN 1 ELSE 0,
            failed |-> IF status' = "failed" THEN 1 ELSE 0, fine |-> IF status' = "ok" THEN 1 ELSE 0]>>)
TSpec == TInit /\ [][Apply]_<<wvars, run, i>>

Ended == i > Len(Run.events)
EndsByItself == ~Run.hung
\* what the disk holds in the end is what the system calls say, and nothing but files of the schedule
LeftAsWritten == Ended => /\ \A f \in Files : (disk[f] = "whole") <=> (f \in {<<Run.whole[m].g, Run.whole[m].f>> : m \in 1..Len(Run.whole)})
                          /\ Run.strange = 0
\* no failure out of nothing
FailsForReason == status = "failed" => trouble
\* an interrupted call may be repeated, or taken for a fault
Hiccup == status = "running" /\ trouble' /\ UNCHANGED <<disk, bad, said, status, told>>
Conforms == WInit /\ [][WNext \/ Hiccup]_wvars
=============================================================================
