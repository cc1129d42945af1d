--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* How a run starts: options, settings file, particle file, archiving      *)
(* (property C17).                                                         *)
(*                                                                         *)
(* A situation (configuration q) has                                       *)
(*   s   the option -s: "none", "absent" (names no file), "ok"             *)
(*   o   the option -o: "none", "absent", "ok", "input" (the directory of  *)
(*       the input files themselves), "file" (names a regular file)        *)
(*   ext the extension of the particle file                                *)
(*   p   "ok", "absent"                                                    *)
(*   where  the particle file: "same" directory as the settings, "sub",    *)
(*       "abs" (given with its absolute path)                              *)
(*   taken  which names are in the output directory already: a subset of   *)
(*       {"settings", "particles"}                                         *)
(*   other  "none", "files" (unrelated files in the output directory),     *)
(*       "snapshots" (snapshots of an earlier run)                         *)
(*   bad   "none", "option" (an option that does not exist)                *)
(*   clash "none", "same" (settings and particle file have one name, in    *)
(*       different directories), "dir" (the settings file has the name of  *)
(*       a directory of snapshots: csv, prof or vtu), "blocked" (a file in *)
(*       the output directory has such a name)                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

KnownExt == {".csv", ".prof", ".vtu"}
Exts == KnownExt \cup {".txt", "", ".CSV", ".csv.bak"}

Valid(q) ==
    /\ q.s # "ok" => q.p = "ok" /\ q.ext = ".csv" /\ q.where = "same"
    /\ q.o \in {"none", "absent", "input", "file"} => q.taken = {} /\ q.other = "none"
    /\ q.bad # "none" => q.ext = ".csv" /\ q.where = "same" /\ q.p = "ok"
    /\ q.where # "same" => q.bad = "none" /\ q.other = "none"
    /\ q.clash # "none" => /\ q.s = "ok" /\ q.o = "ok" /\ q.ext \in KnownExt /\ q.p = "ok"
                           /\ q.taken = {} /\ q.other = "none" /\ q.bad = "none"
    /\ q.clash = "same" => q.where = "sub"

Configs == { q \in [s : {"none", "absent", "ok"}, o : {"none", "absent", "ok", "input", "file"}, ext : Exts,
                    p : {"ok", "absent"}, where : {"same", "sub", "abs"}, taken : SUBSET {"settings", "particles"},
                    other : {"none", "files", "snapshots"}, bad : {"none", "option"},
                    clash : {"none", "same", "dir", "blocked"}] : Valid(q) }

\* Both names are taken, if the output directory is where the inputs are.
TakenS(q) == "settings" \in q.taken \/ q.o = "input"
TakenP(q) == "particles" \in q.taken \/ (q.o = "input" /\ q.where # "sub" /\ q.p = "ok")

Reasons(q) ==
    (IF q.s = "none" THEN {"no settings option"} ELSE {}) \cup
    (IF q.s = "absent" THEN {"no settings file"} ELSE {}) \cup
    (IF q.o = "none" THEN {"no output option"} ELSE {}) \cup
    (IF q.o \in {"absent", "file"} THEN {"no output directory"} ELSE {}) \cup
    (IF q.bad = "option" THEN {"unknown option"} ELSE {}) \cup
    (IF q.s = "ok" /\ q.p = "absent" THEN {"no particle file"} ELSE {}) \cup
    (IF q.s = "ok" /\ q.ext \notin KnownExt THEN {"unknown extension"} ELSE {}) \cup
    (IF TakenS(q) THEN {"settings name taken"} ELSE {}) \cup
    (IF TakenP(q) \/ q.clash = "same" THEN {"particles name taken"} ELSE {}) \cup
    (IF q.clash \in {"dir", "blocked"} THEN {"no room for snapshots"} ELSE {})

Accepted(q) == Reasons(q) = {}

-----------------------------------------------------------------------------
(* The machine.  disk maps the names in the output directory to what is in *)
(* them; "old" is whatever was there before.                               *)

VARIABLES q, disk, pc, exit, told
cvars == <<q, disk, pc, exit, told>>

Names == {"settings", "particles", "unrelated", "snapshot0", "snapshot1"}

Disk0(cf) == [ nm \in Names |->
    CASE nm = "settings" /\ TakenS(cf) -> "old"
      [] nm = "particles" /\ TakenP(cf) -> "old"
      [] nm = "unrelated" /\ cf.other # "none" -> "old"
      [] nm = "snapshot0" /\ cf.other = "snapshots" -> "old"
      [] OTHER -> "nothing" ]

CInit == q \in Configs /\ disk = Disk0(q) /\ pc = "options" /\ exit = -1 /\ told = FALSE

Refuse == pc' = "ended" /\ exit' = 1 /\ told' = TRUE /\ UNCHANGED <<q, disk>>
Go(to) == pc' = to /\ UNCHANGED <<q, disk, exit, told>>

Options == pc = "options" /\
    IF q.s # "ok" \/ q.o \in {"none", "absent"} \/ q.bad # "none" THEN Refuse ELSE Go("load")
Load == pc = "load" /\
    IF q.ext \notin KnownExt \/ q.p = "absent" THEN Refuse ELSE Go("archive settings")
Archive(nm, next) ==
    /\ pc = "archive " \o nm
    /\ IF disk[nm] # "nothing" \/ q.o = "file" \/ (nm = "particles" /\ q.clash = "same" /\ disk["settings"] # "nothing") THEN Refuse
       ELSE disk' = [disk EXCEPT ![nm] = "copy"] /\ pc' = next /\ UNCHANGED <<q, exit, told>>
ArchiveSettings == Archive("settings", "archive particles")
ArchiveParticles == Archive("particles", "save initial")
SaveInitial == pc = "save initial" /\
    IF q.clash \in {"dir", "blocked"} THEN Refuse
    ELSE pc' = "step" /\ disk' = [disk EXCEPT !["snapshot0"] = "snapshot"] /\ UNCHANGED <<q, exit, told>>
Step == /\ pc = "step" /\ pc' = "end"
        /\ disk' = [disk EXCEPT !["snapshot1"] = "snapshot"] /\ UNCHANGED <<q, exit, told>>
End == pc = "end" /\ pc' = "ended" /\ exit' = 0 /\ UNCHANGED <<q, disk, told>>
CNext == Options \/ Load \/ ArchiveSettings \/ ArchiveParticles \/ SaveInitial \/ Step \/ End
CSpec == CInit /\ [][CNext]_cvars

-----------------------------------------------------------------------------
\* What a user relies on, in terms of what is left behind (before: disk at the start, after: at the end)
InputsKept(before, after) == \A nm \in {"settings", "particles", "unrelated"} \cap DOMAIN before :
    before[nm] = "old" => after[nm] = "old"
ArchivedOK(after) == after["settings"] = "copy" /\ after["particles"] = "copy"

RefusedIfReason == pc = "ended" => ((exit # 0) <=> ~Accepted(q))
RefusedIsTold == pc = "ended" /\ exit # 0 => told
NeverOverwritten == InputsKept(Disk0(q), disk)
RefusedWritesNothing == pc = "ended" /\ exit # 0 =>
    \A nm \in {"snapshot0", "snapshot1"} : disk[nm] = Disk0(q)[nm]
ArchivedBeforeStep == \A nm \in {"snapshot0", "snapshot1"} : disk[nm] = "snapshot" => ArchivedOK(disk)
=============================================================================
