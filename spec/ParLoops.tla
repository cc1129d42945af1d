------------------------------ MODULE ParLoops ------------------------------
(***************************************************************************)
(* Parallel loops (property C21).  A loop is a set of threads, each with a *)
(* program: a sequence of accesses [w |-> is it a write, c |-> cell].      *)
(* What a thread writes is some function of what it has read so far; here  *)
(* it is that history itself, which no two functions can tell better.      *)
(*                                                                         *)
(* Two accesses conflict if they are of different threads, to the same     *)
(* cell, and one of them is a write.  The machine runs the threads in any  *)
(* interleaving; Deterministic says that without conflicts the memory ends *)
(* up as if one thread ran after the other.  TLC checks that on all small  *)
(* programs, and ParTrace checks Conflicts = {} on what the loops of the   *)
(* program access.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Conflict(t, a, u, b) == t # u /\ a.c = b.c /\ (a.w \/ b.w)

ConflictFree(progs) ==
    \A t, u \in DOMAIN progs : \A i \in 1..Len(progs[t]) : \A j \in 1..Len(progs[u]) :
        ~Conflict(t, progs[t][i], u, progs[u][j])

-----------------------------------------------------------------------------
CONSTANTS Threads, Cells, MaxLen

VARIABLES progs,  \* thread -> program
          at,     \* thread -> accesses done
          seen,   \* thread -> what it has read and written so far
          mem     \* cell -> value
pvars == <<progs, at, seen, mem>>

Access == [w : BOOLEAN, c : Cells]
Programs == UNION { [1..n -> Access] : n \in 0..MaxLen }

Mem0 == [c \in Cells |-> <<0, c>>]   \* (no thread has the number 0)
Value(t, h) == <<t, h>>

\* One thread alone, from a memory: <<memory, history>>
RECURSIVE RunAlone(_, _, _, _)
RunAlone(t, p, m, h) ==
    IF p = <<>> THEN m
    ELSE LET a == Head(p) IN
         IF a.w THEN RunAlone(t, Tail(p), [m EXCEPT ![a.c] = Value(t, h)], h)
                ELSE RunAlone(t, Tail(p), m, Append(h, m[a.c]))
RECURSIVE RunAll(_, _, _)
RunAll(ts, ps, m) ==
    IF ts = {} THEN m
    ELSE LET t == CHOOSE t \in ts : TRUE IN RunAll(ts \ {t}, ps, RunAlone(t, ps[t], m, <<>>))

PInit == /\ progs \in [Threads -> Programs]
         /\ at = [t \in Threads |-> 0] /\ seen = [t \in Threads |-> <<>>] /\ mem = Mem0
PStep(t) ==
    /\ at[t] < Len(progs[t])
    /\ LET a == progs[t][at[t] + 1] IN
       IF a.w THEN mem' = [mem EXCEPT ![a.c] = Value(t, seen[t])] /\ UNCHANGED seen
              ELSE seen' = [seen EXCEPT ![t] = Append(@, mem[a.c])] /\ UNCHANGED mem
    /\ at' = [at EXCEPT ![t] = @ + 1]
    /\ UNCHANGED progs
PNext == \E t \in Threads : PStep(t)
PSpec == PInit /\ [][PNext]_pvars

Finished == \A t \in Threads : at[t] = Len(progs[t])
RECURSIVE SeenAlone(_, _, _, _)
SeenAlone(t, p, m, h) ==
    IF p = <<>> THEN h
    ELSE LET a == Head(p) IN
         IF a.w THEN SeenAlone(t, Tail(p), [m EXCEPT ![a.c] = Value(t, h)], h)
                ELSE SeenAlone(t, Tail(p), m, Append(h, m[a.c]))
Deterministic == Finished /\ ConflictFree(progs) =>
    /\ mem = RunAll(Threads, progs, Mem0)
    /\ \A t \in Threads : seen[t] = SeenAlone(t, progs[t], Mem0, <<>>)
\* (The converse does not hold of every program, but of some:)
SomeRaceShows == ~(Finished /\ mem # RunAll(Threads, progs, Mem0))
=============================================================================
