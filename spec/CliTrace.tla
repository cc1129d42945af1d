------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Conformance of the real program to Cli: every configuration has been    *)
(* set up and the program started in it; a recording has the exit status,  *)
(* whether there was a message on stderr, and what became of each file.    *)
(***************************************************************************)
EXTENDS Cli, Real64
CONSTANT TraceFile
Runs == ReadTrace(TraceFile)
VARIABLE run
Run == Runs[run]
Range(f) == {f[m] : m \in DOMAIN f}
CfgOf(r) == [s |-> r.cfg.s, o |-> r.cfg.o, ext |-> r.cfg.ext, p |-> r.cfg.p, where |-> r.cfg.where,
             taken |-> Range(r.cfg.taken), other |-> r.cfg.other, bad |-> r.cfg.bad, clash |-> r.cfg.clash]

TInit == /\ run \in 1..Len(Runs)
         /\ q = CfgOf(Runs[run])
         /\ disk = [nm \in Names |-> Runs[run].disk[nm]] /\ exit = Runs[run].exit /\ told = Runs[run].message /\ pc = "seen"
TNext == /\ pc = "seen" /\ pc' = "compared" /\ UNCHANGED <<q, disk, exit, told, run>>
         /\ PrintT(<<"TALLY", run, Run.name, [refused |-> IF exit = 0 THEN 0 ELSE 1, accepted |-> IF exit = 0 THEN 1 ELSE 0]>>)
TSpec == TInit /\ [][TNext]_<<cvars, run>>

\* every configuration of the model has been tried
AllTried == run = 1 /\ Len(Runs) > 1 => Configs \subseteq {CfgOf(Runs[m]) : m \in 1..Len(Runs)}
Known == q \in Configs

EndsByItself == ~Run.hung
RefusedExactly == (exit # 0) <=> ~Accepted(q)
Told == exit # 0 => told
\* nothing that was there before has changed (in the output directory: but for snapshots of an accepted run)
NothingChanged == /\ InputsKept(Disk0(q), disk)
                  /\ Run.inputskept
                  /\ exit # 0 => \A nm \in Names : Disk0(q)[nm] = "old" => disk[nm] = "old"
NoSnapshot == exit # 0 => disk["snapshot0"] = Disk0(q)["snapshot0"] /\ disk["snapshot1"] = "nothing" /\ Run.strange = 0
Archived == exit = 0 => /\ ArchivedOK(disk) /\ disk["snapshot0"] = "snapshot" /\ disk["snapshot1"] = "snapshot"
\* what is archived by a refused run is at least a copy
NoBrokenCopy == \A nm \in {"settings", "particles"} : disk[nm] \in {"nothing", "old", "copy"}

\* Seen in the middle of a run: when its first step is being done, both copies are there and complete.
ArchivedFirst == Run.midway # "none" => Run.midway = "copy"
=============================================================================
