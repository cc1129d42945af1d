------------------------------- MODULE Runner -------------------------------
(***************************************************************************)
(* The scripts that start runs (property C29).                             *)
(*                                                                         *)
(* A tree has result directories.  runner.sh clears and refills the one of *)
(* its project; safe_runner.sh makes a new one for each run, named after   *)
(* the second, the project and a note.  A directory holds the results of   *)
(* the call number that filled it.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Projects,     \* of safe_runner.sh; the project of runner.sh is the string Own
          Notes,        \* {"none", "plain", "two words", ...}
          Seconds,      \* how long after the call before it: {0, 1}
          Places        \* where the script is called from
Own == "dambreak"

\* A call: script "runner" or "safe", or "safe" without a project ("usage")
Calls == [script : {"runner"}, project : {Own}, note : {"none"}, wait : Seconds, place : Places]
    \cup [script : {"safe"}, project : Projects, note : Notes, wait : Seconds, place : Places]
    \cup [script : {"usage"}, project : {"none"}, note : {"none"}, wait : Seconds, place : Places]

VARIABLES clock, calls, dirs    \* dirs: directory |-> number of the call whose results it holds
rvars == <<clock, calls, dirs>>

Dir(q, t) == IF q.script = "runner" THEN <<q.project>> ELSE <<t, q.project, q.note>>
RInit == clock = 0 /\ calls = <<>> /\ dirs = [d \in {} |-> 0]

Fill(d, m) == [e \in DOMAIN dirs \cup {d} |-> IF e = d THEN m ELSE dirs[e]]
Call(q) ==
    LET t == clock + q.wait
        m == Len(calls) + 1
        d == Dir(q, t)
    IN /\ clock' = t
       /\ calls' = Append(calls, q)
       /\ dirs' = CASE q.script = "usage" -> dirs
                    [] q.script = "runner" -> Fill(d, m)
                    \* a name that is taken is refused
                    [] q.script = "safe" -> IF d \in DOMAIN dirs THEN dirs ELSE Fill(d, m)
RNext(max) == Len(calls) < max /\ \E q \in Calls : Call(q)

\* Results of earlier runs stay, but for those runner.sh replaces.
EarlierStay == [][\A d \in DOMAIN dirs : d # <<Own>> => d \in DOMAIN dirs' /\ dirs'[d] = dirs[d]]_rvars
\* Each run has its results in a directory of its own, of the second it was started in.
Held(m) == \E d \in DOMAIN dirs : dirs[d] = m
OneEach == \A d, e \in DOMAIN dirs : d # e => dirs[d] # dirs[e]
LastRunIsThere == Len(calls) > 0 /\ calls[Len(calls)].script = "runner" => dirs[<<Own>>] = Len(calls)
\* two calls for other projects, with other notes or in other seconds do not get into each other's way
RECURSIVE At(_)
At(m) == IF m = 0 THEN 0 ELSE At(m - 1) + calls[m].wait
Alike(m, h) == calls[h].script = "safe" /\ At(h) = At(m) /\ calls[h].project = calls[m].project /\ calls[h].note = calls[m].note
DistinctNamesAllKept == \A m \in 1..Len(calls) :
    (calls[m].script = "safe" /\ \A h \in 1..(m - 1) : ~Alike(m, h)) => Held(m)
DistinctSecondsAllKept == \A m \in 1..Len(calls) :
    (calls[m].script = "safe" /\ calls[m].wait > 0) => Held(m)
=============================================================================
