---------------------------- MODULE ScheduleTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded runs to Schedule.  A recording has the settings *)
(* of the run, the number of steps it reported, and for each directory of  *)
(* snapshots the file numbers and, per file, the time written in it and a  *)
(* position.  The one particle of the run starts at 0 and moves with       *)
(* velocity 1, so that its position tells which state was written.         *)
(***************************************************************************)
EXTENDS Schedule, TLC

CONSTANT TraceFile
Runs == ReadTrace(TraceFile)

VARIABLE run
tvars == <<run, svars>>
Run == Runs[run]

CfgOf(r) == [start |-> r.start, end |-> r.end, dt |-> r.dt, period |-> r.period]

Six == R("5.001e-6")
Eps == R("1e-9")
Near(a, b) == RAbs(a (-) b) \preceq ((Six (.) RMax(RAbs(a), RAbs(b))) (+) (Eps (.) cfg.dt))
\* two reals whose order rounding may have changed
Tie(a, b) == ~Run.exact /\ RAbs(a (-) b) \preceq (Eps (.) (RMax(RAbs(a), RAbs(b)) (+) cfg.dt))

\* The step whose state the m-th snapshot shows
StepOf(pos) == RFloor((pos (/) Run.dt) (+) RQ(1, 2))
Steps == [m \in 1..Len(Run.vtu.pos) |-> StepOf(Run.vtu.pos[m])]

TInit == /\ run \in 1..Len(Runs)
         /\ cfg = CfgOf(Runs[run]) /\ n = 0 /\ file = <<>> /\ phase = "init"
\* A run marked exact follows the machine, step by step.  Otherwise rounding may decide what to do at a tie;
\* there the machine does what the program did.
TStep == \/ Step
         \/ /\ phase = "ready" /\ Tie(TimeAt(cfg, n), cfg.end) /\ ~(TimeAt(cfg, n) \prec cfg.end) /\ Run.steps > n
            /\ n' = n + 1 /\ phase' = "stepped" /\ UNCHANGED <<cfg, file>>
DueTie == Tie(cfg.period (.) RI(Len(file)), Elapsed(cfg, n))
Saved == Len(Steps) > Len(file) /\ Steps[Len(file) + 1] = n
TSave == IF DueTie THEN /\ phase = "stepped" /\ phase' = "ready" /\ UNCHANGED <<cfg, n>>
                        /\ file' = IF Saved THEN Append(file, n) ELSE file
         ELSE Save \/ NoSave
TEnd == \/ End /\ ~(Tie(TimeAt(cfg, n), cfg.end) /\ Run.steps > n)
        \/ /\ phase = "ready" /\ Tie(TimeAt(cfg, n), cfg.end) /\ (TimeAt(cfg, n) \prec cfg.end) /\ Run.steps = n
           /\ phase' = "ended" /\ UNCHANGED <<cfg, n, file>>
TDone == /\ phase = "ended" /\ phase' = "compared" /\ UNCHANGED <<cfg, n, file>>
         /\ PrintT(<<"TALLY", run, Run.name, [steps |-> n, files |-> Len(file)]>>)
TNext == (SaveInitial \/ TStep \/ TSave \/ TEnd \/ TDone) /\ UNCHANGED run
TSpec == TInit /\ [][TNext]_tvars

\* what an error trace shows of a state (runs may have tens of thousands of files)
Glance == [run |-> run, name |-> Run.name, step |-> n, files |-> Len(file), phase |-> phase]

-----------------------------------------------------------------------------
Ended == phase = "ended"
Completes == Run.exit = 0
StepsConform == Ended => Run.steps = n
\* numbered from 0 without gaps, in every format
NumbersConform == Ended => \A f \in {"prof", "csv", "vtu"} :
    Run[f].num = [m \in 1..Len(file) |-> m - 1]
\* each is the state after the step it belongs to, and has its time
StatesConform == Ended => \A f \in {"prof", "csv", "vtu"} : Len(Run[f].pos) = Len(file) =>
    \A m \in 1..Len(file) : Near(Run[f].pos[m], Elapsed(cfg, file[m]))
TimesConform == Ended => \A f \in {"prof", "csv", "vtu"} : Len(Run[f].time) = Len(file) =>
    \A m \in 1..Len(file) : Near(Run[f].time[m], TimeAt(cfg, file[m]))
\* ... a binary file with all its digits, but for what adding up dt loses
BinaryTimesConform == Ended /\ Run.binary /\ Len(Run.vtu.time) = Len(file) =>
    \A m \in 1..Len(file) : RAbs(Run.vtu.time[m] (-) TimeAt(cfg, file[m])) \preceq
        (R("1e-10") (.) RMax(cfg.dt, RMax(RAbs(cfg.start), RAbs(TimeAt(cfg, file[m])))))
=============================================================================
