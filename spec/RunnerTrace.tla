----------------------------- MODULE RunnerTrace -----------------------------
(***************************************************************************)
(* Conformance of scripts/runner.sh and scripts/safe_runner.sh to Runner:  *)
(* a recording is a sequence of calls with what each of them left in the   *)
(* tree.  After each call,                                                 *)
(*   filled    the directories that hold results, each with the number of  *)
(*             the call they come from (0: something that no call left, or *)
(*             results of several calls)                                   *)
(*   started   whether the program was started, and if so                  *)
(*   settings, output   whether with the settings of the project, and with *)
(*             the directory that holds the results now                    *)
(*   console, error     whether the logs there have what it printed        *)
(*   elsewhere  how many other files of the tree have changed              *)
(*   attempts   how many removals were tried outside of the tree           *)
(*   exit       status of the script                                       *)
(***************************************************************************)
EXTENDS Runner, TLC, Real64
CONSTANT TraceFile
Runs == ReadTrace(TraceFile)
VARIABLE run
Run == Runs[run]
K == Len(calls)
Seen == Run.seen[K]

TInit == run \in 1..Len(Runs) /\ RInit
TNext == /\ K < Len(Run.calls)
         /\ Call(Run.calls[K + 1]) /\ run' = run
         /\ K + 1 = Len(Run.calls) => PrintT(<<"TALLY", run, Run.name, [calls |-> K + 1, taken |-> (K + 1) - Cardinality(DOMAIN dirs')]>>)
TSpec == TInit /\ [][TNext]_<<rvars, run>>

KnownCall == K > 0 => calls[K] \in Calls
SameDirs == K > 0 => DOMAIN dirs = {Seen.filled[m].dir : m \in 1..Len(Seen.filled)}
SameResults == K > 0 => \A m \in 1..Len(Seen.filled) :
    Seen.filled[m].dir \in DOMAIN dirs => dirs[Seen.filled[m].dir] = Seen.filled[m].call
NothingElse == K > 0 => Seen.elsewhere = 0 /\ Seen.attempts = 0
StartedIfOwn == K > 0 => (Seen.started <=> Held(K))
WithItsSettings == K > 0 /\ Held(K) => Seen.settings /\ Seen.output
LogsKept == K > 0 /\ Held(K) => Seen.console /\ Seen.error
RefusalIsTold == K > 0 /\ ~Held(K) => Seen.exit # 0
=============================================================================
