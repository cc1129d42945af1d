------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* How the files of a run come to be, when writing them can fail and the   *)
(* program can be killed at any moment (property C26).                     *)
(*                                                                         *)
(* Group 0 of files is the archive (copies of the settings and of the      *)
(* particle file), group g > 0 is snapshot g-1.  A file is "absent",       *)
(* "part" (begun, not all of it there) or "whole".  A fault is any         *)
(* operation on a file that the operating system refuses: making its       *)
(* directory, opening it, writing a part of it, closing it.                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANT Last          \* number of the last snapshot of the schedule

Groups == 0..(Last + 1)
FilesOf(g) == IF g = 0 THEN {"settings", "particles"} ELSE {"prof", "vtu", "csv"}
Files == UNION { {g} \X FilesOf(g) : g \in Groups }

VARIABLES disk,        \* what is on the disk
          bad,         \* the files that met a fault, and have not been completed since
          trouble,     \* there has been a fault
          said,        \* how many snapshots the program has announced
          status,      \* "running", "ok", "failed", "killed"
          told         \* there was a message on stderr
wvars == <<disk, bad, trouble, said, status, told>>

WInit == /\ disk = [f \in Files |-> "absent"] /\ bad = {} /\ trouble = FALSE /\ said = 0
         /\ status = "running" /\ told = FALSE

WholeGroup(g) == \A f \in FilesOf(g) : disk[<<g, f>>] = "whole"
\* the snapshots that can be relied on: complete, and so are all before them
WholeSnaps == CHOOSE n \in 0..(Last + 1) : (\A g \in 1..n : WholeGroup(g)) /\ (n = Last + 1 \/ ~WholeGroup(n + 1))
InTurn(f) == \A h \in 0..(f[1] - 1) : WholeGroup(h)

Begin(f)    == /\ status = "running" /\ disk[f] = "absent" /\ InTurn(f)
               /\ disk' = [disk EXCEPT ![f] = "part"] /\ UNCHANGED <<bad, trouble, said, status, told>>
\* (writing again what could not be written heals the fault)
Complete(f) == /\ status = "running" /\ disk[f] = "part"
               /\ disk' = [disk EXCEPT ![f] = "whole"] /\ bad' = bad \ {f} /\ UNCHANGED <<trouble, said, status, told>>
Fault(f)    == /\ status = "running" /\ InTurn(f)
               /\ bad' = bad \cup {f} /\ trouble' = TRUE /\ UNCHANGED <<disk, said, status, told>>
Announce(m) == /\ status = "running" /\ bad = {} /\ m \in said..WholeSnaps
               /\ said' = m /\ UNCHANGED <<disk, bad, trouble, status, told>>
GiveUp      == /\ status = "running" /\ trouble
               /\ status' = "failed" /\ told' = TRUE /\ UNCHANGED <<disk, bad, trouble, said>>
Finish      == /\ status = "running" /\ bad = {} /\ \A g \in Groups : WholeGroup(g)
               /\ status' = "ok" /\ UNCHANGED <<disk, bad, trouble, said, told>>
Killed      == /\ status = "running" /\ status' = "killed" /\ UNCHANGED <<disk, bad, trouble, said, told>>

WNext == \/ \E f \in Files : Begin(f) \/ Complete(f) \/ Fault(f)
         \/ \E m \in 0..(Last + 1) : Announce(m)
         \/ GiveUp \/ Finish \/ Killed
WSpec == WInit /\ [][WNext]_wvars

-----------------------------------------------------------------------------
\* A run that says it went well has all its files.
SuccessIsWhole == status = "ok" => bad = {} /\ \A f \in Files : disk[f] = "whole"
\* A fault is told, and never passes for success.
FaultIsTold == status # "running" /\ bad # {} => status # "ok"
FailureIsTold == status = "failed" => told
\* At every moment - also when the program is killed then - what has been announced is there.
AnnouncedIsThere == said <= WholeSnaps
\* At most one snapshot is incomplete, the last one.
OnlyLastIncomplete == \A f \in Files : disk[f] # "absent" => InTurn(f)
\* Nothing that is complete is touched again.
\* ... and a fault on a complete one is not forgiven
LateFaultStays == [][\A f \in Files : disk[f] = "whole" /\ f \in bad => f \in bad']_wvars
Untouched == [][\A f \in Files : disk[f] = "whole" => disk'[f] = "whole"]_wvars
\* A fault ends the run (given that the program does anything at all).
FaultEnds == (bad # {}) ~> (status # "running" \/ bad = {})
Fair == WSpec /\ WF_wvars(GiveUp)
=============================================================================
