------------------------------ MODULE Dialogue ------------------------------
(***************************************************************************)
(* The dialogue of the generators (property C19).  A generator writes the  *)
(* files in Own.  there is the set of those that exist at the start, input *)
(* the lines of the answers up to the end of input.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Own == {"prof", "vtu"}
Yes == {"y", "Y"}
No  == {"n", "N"}
Others == {"", "x", "yes", "no", "1", "yn"}

VARIABLES there, input, pos, asked, disk, pc
dvars == <<there, input, pos, asked, disk, pc>>

Before(t) == [f \in Own |-> IF f \in t THEN "old" ELSE "nothing"]

DInit(ts, ins) == /\ there \in ts /\ input \in ins
                  /\ pos = 1 /\ asked = 0 /\ disk = Before(there) /\ pc = "begin"

Begin == /\ pc = "begin" /\ pc' = IF there = {} THEN "write" ELSE "ask"
         /\ UNCHANGED <<there, input, pos, asked, disk>>
Ask == /\ pc = "ask" /\ pc' = "read" /\ asked' = asked + 1
       /\ UNCHANGED <<there, input, pos, disk>>
\* An empty line is no answer at all; it is passed over without asking again, or asked about again.
Read == /\ pc = "read" /\ UNCHANGED <<there, input, asked, disk>>
        /\ IF pos > Len(input) THEN pc' = "cancelled" /\ UNCHANGED pos
           ELSE /\ pos' = pos + 1
                /\ \/ input[pos] \in Yes /\ pc' = "write"
                   \/ input[pos] \in No /\ pc' = "cancelled"
                   \/ input[pos] \notin Yes \cup No /\ pc' = "ask"
                   \/ input[pos] = "" /\ pc' = "read"
Write == /\ pc = "write"
         /\ \E f \in {g \in Own : disk[g] # "new"} : disk' = [disk EXCEPT ![f] = "new"]
         /\ UNCHANGED <<there, input, pos, asked, pc>>
Written == /\ pc = "write" /\ \A f \in Own : disk[f] = "new" /\ pc' = "done"
           /\ UNCHANGED <<there, input, pos, asked, disk>>
DNext == Begin \/ Ask \/ Read \/ Write \/ Written
DSpec(ts, ins) == DInit(ts, ins) /\ [][DNext]_dvars /\ WF_dvars(DNext)

-----------------------------------------------------------------------------
Ended == pc \in {"done", "cancelled"}

\* The first answer that counts
FirstValid(ins) == {m \in 1..Len(ins) : ins[m] \in Yes \cup No /\ \A h \in 1..(m-1) : ins[h] \notin Yes \cup No}
Consent(t, ins) == t = {} \/ \E m \in FirstValid(ins) : ins[m] \in Yes

AllOrNothing == Ended => disk = (IF Consent(there, input) THEN [f \in Own |-> "new"] ELSE Before(there))
NothingBeforeConsent == pc \in {"begin", "ask", "read", "cancelled"} => disk = Before(there)
AsksIffThere == Ended => (asked > 0 <=> there # {})
Terminates == <>Ended
=============================================================================
