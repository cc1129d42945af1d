----------------------------- MODULE ReportTrace -----------------------------
(***************************************************************************)
(* What a run tells about its progress (property C28), against the machine *)
(* of Schedule.  A recording adds to that of ScheduleTrace                 *)
(*   report   the lines of stdout: [n, dt, t, fin, elapsed, remain, ave,   *)
(*            last, out] (durations in seconds)                            *)
(*   err      the lines of stderr: [n, t]                                  *)
(*   begins, ends   how often start and end were announced, and whether    *)
(*            in their places;  total  the total time                      *)
(*   tick     the seconds every look at the clock takes ("#0": real clock) *)
(***************************************************************************)
EXTENDS ScheduleTrace, FiniteSets

Rep == Run.report
Half == R("0.5")
Within(a, b, tol) == RAbs(a (-) b) \preceq tol
\* rounding of the time itself, as it is added up
Drift(m) == Eps (.) (RAbs(TimeAt(cfg, m)) (+) cfg.dt)

EachStepOnce == Ended => /\ Len(Rep) = n /\ \A m \in 1..n : Rep[m].n = m
                         /\ Len(Run.err) = n /\ \A m \in 1..n : Run.err[m].n = m
TimesTold == Ended /\ Len(Rep) = n /\ Len(Run.err) = n =>
    \A m \in 1..n : /\ Within(Rep[m].t, TimeAt(cfg, m), R("0.000501") (+) Drift(m))
                    /\ Within(Run.err[m].t, TimeAt(cfg, m), R("0.000501") (+) Drift(m))
\* (dt is printed with a single digit)
ScheduleTold == Ended => \A m \in 1..Len(Rep) :
    /\ Within(Rep[m].dt, cfg.dt, Half (.) cfg.dt)
    /\ Within(Rep[m].fin, cfg.end, R("0.0501"))
\* the snapshots that were on the disk when step m was reported
FilesTold == Ended /\ Len(Rep) = n =>
    \A m \in 1..n : Rep[m].out = Cardinality({j \in 1..Len(file) : file[j] < m})
\* The figures of the clock: a duration is cut to whole seconds, an average rounded to milliseconds.
One == RI(1)
ClockTold == Ended => \A m \in 1..Len(Rep) :
    LET r == Rep[m]
        whole == (cfg.end (-) cfg.start) (/) cfg.dt          \* steps of the whole run
        slack(k) == R("1.01") (+) (R("0.000501") (.) RAbs(k)) (+) (R("1e-9") (.) RAbs(k (.) r.ave))
    IN /\ RI(0) \preceq r.elapsed /\ RI(0) \preceq r.last /\ RI(0) \preceq r.ave
       /\ m > 1 => Rep[m-1].elapsed \preceq r.elapsed
       /\ Within(r.elapsed, RI(m) (.) r.ave, slack(RI(m)))
       /\ Within(r.remain (+) r.elapsed, whole (.) r.ave, slack(whole) (+) One)
       /\ r.last \preceq (r.elapsed (+) One (+) R("0.000501"))
       \* time passed since the report before
       /\ m > 1 => r.last \preceq ((r.elapsed (-) Rep[m-1].elapsed) (+) One (+) R("0.000501"))
       /\ r.elapsed \preceq Run.total
\* with a clock that moves only when it is looked at, time passes between any two reports
ClockLooked == Ended /\ One \prec Run.tick => \A m \in 1..Len(Rep) :
    /\ Run.tick \preceq (Rep[m].last (+) R("0.000501"))
    /\ (Run.tick (-) One) \preceq (IF m = 1 THEN Rep[m].elapsed ELSE Rep[m].elapsed (-) Rep[m-1].elapsed)
Announced == Ended => Run.begins = 1 /\ Run.ends = 1
RealNumbers == Ended => \A m \in 1..Len(Rep) : \A f \in {"dt", "t", "fin", "elapsed", "remain", "ave", "last"} : RFinite(Rep[m][f])
=============================================================================
