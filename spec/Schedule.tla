------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* Time stepping and output schedule of a run (property C13).              *)
(*                                                                         *)
(* cfg is a record [start, end, dt, period] of reals.  The run is at step  *)
(* n; file[m] is the step after which snapshot number m-1 was saved.       *)
(***************************************************************************)
EXTENDS Real64, Integers, Sequences

VARIABLES cfg, n, file, phase   \* phase: "init", "stepped" (a step is done, not yet saved), "ready", "ended"
svars == <<cfg, n, file, phase>>

TimeAt(q, m) == q.start (+) (RI(m) (.) q.dt)
Elapsed(q, m) == RI(m) (.) q.dt

SInit(configs) == cfg \in configs /\ n = 0 /\ file = <<>> /\ phase = "init"

SaveInitial == /\ phase = "init"
               /\ file' = <<0>> /\ phase' = "ready" /\ UNCHANGED <<cfg, n>>

Step == /\ phase = "ready" /\ TimeAt(cfg, n) \prec cfg.end
        /\ n' = n + 1 /\ phase' = "stepped" /\ UNCHANGED <<cfg, file>>

Due(m, files) == (cfg.period (.) RI(files)) \preceq Elapsed(cfg, m)

Save == /\ phase = "stepped" /\ Due(n, Len(file))
        /\ file' = Append(file, n) /\ phase' = "ready" /\ UNCHANGED <<cfg, n>>

NoSave == /\ phase = "stepped" /\ ~Due(n, Len(file))
          /\ phase' = "ready" /\ UNCHANGED <<cfg, n, file>>

End == /\ phase = "ready" /\ ~(TimeAt(cfg, n) \prec cfg.end)
       /\ phase' = "ended" /\ UNCHANGED <<cfg, n, file>>

SNext == SaveInitial \/ Step \/ Save \/ NoSave \/ End

-----------------------------------------------------------------------------
(* What follows for the user *)

\* at most one snapshot per step, the first one before any step
Increasing == \A m \in 1..(Len(file) - 1) : file[m] < file[m+1]
FirstIsInitial == file # <<>> => file[1] = 0

\* no snapshot before it is due, and none late: if the previous snapshot was not late either,
\* it is the very first step at which it was due
NeverEarly == \A m \in 1..Len(file) : (cfg.period (.) RI(m-1)) \preceq Elapsed(cfg, file[m])
NeverLate == phase \in {"ready", "ended"} =>
    \A m \in 2..Len(file) : file[m] = file[m-1] + 1 \/ Elapsed(cfg, file[m] - 1) \prec (cfg.period (.) RI(m-1))
\* with a period of at least dt, snapshot m shows the first step at or after m periods
OnTime == phase \in {"ready", "ended"} /\ cfg.dt \preceq cfg.period =>
    /\ \A m \in 2..Len(file) : Elapsed(cfg, file[m] - 1) \prec (cfg.period (.) RI(m-1))
    /\ Elapsed(cfg, n) \prec (cfg.period (.) RI(Len(file)))
\* with a smaller one, every step is saved
EveryStep == phase \in {"ready", "ended"} /\ cfg.period \preceq cfg.dt => Len(file) = n + 1

\* the run ends at the first step at or after the end time
EndsOnTime == phase = "ended" =>
    /\ cfg.end \preceq TimeAt(cfg, n)
    /\ n > 0 => TimeAt(cfg, n-1) \prec cfg.end
Terminates == <>(phase = "ended")
=============================================================================
