---------------------------- MODULE RestartTrace ----------------------------
(***************************************************************************)
(* Continuing a run from one of its snapshots (property C16).  Each        *)
(* recording is a run that was started from snapshot Run.from of an        *)
(* original run; Run.orig are the original's snapshots from that one on.   *)
(* With mode "exact" the particle file was written with all digits; with   *)
(* mode "text" it is a snapshot file as the program wrote it.              *)
(***************************************************************************)
EXTENDS MPSTrace

Six == R("5.001e-6")
Close(eps, a, b, scale) == RAbs(a (-) b) \preceq (eps (.) scale)
Close3(eps, u, w, scale) == \A d \in 1..3 : Close(eps, u[d], w[d], scale)
Six3(u, w) == \A d \in 1..3 : Close(Six, u[d], w[d], RAbs(w[d])) \/ u[d] = w[d]

AtStart == Shaped[run] /\ k = 2 /\ pc = "begin"

\* The new run starts with the particles of the snapshot, at its time.
StartsAsSnapshot == AtStart =>
    LET a == Run.snaps[1]
        b == Run.orig[1]
    IN /\ a.type = b.type
       /\ Run.fmt # "prof" => a.ft = b.ft
       /\ Close(Six, a.time, b.time, RAbs(b.time))
       /\ \A i \in 1..N : Six3(a.x[i], b.x[i]) /\ Six3(a.v[i], b.v[i])

\* With all digits, it goes on exactly like the original, in every respect.
TypicalX == RMax(c.l0, VMax(Snap.x))
TypicalV == RMax((R("0.001") (.) c.l0) (/) c.dt, VMax(Snap.v))
Continues == Shaped[run] /\ Run.mode = "exact" /\ pc = "begin" /\ k >= 2 /\ k <= Len(Run.snaps) =>
    /\ k <= Len(Run.orig)
    /\ LET a == Snap
           b == Run.orig[k]
           ps == RMax(MaxOf(Zero, a.p), MaxOf(Zero, b.p))
       IN /\ a.type = b.type /\ a.bc = b.bc
          /\ Close(Eps, a.time, b.time, RAbs(b.time) (+) c.dt)
          /\ \A i \in 1..N :
               /\ Close3(Eps, a.x[i], b.x[i], TypicalX) /\ Close3(Eps, a.v[i], b.v[i], TypicalV)
               /\ Close(Eps, a.nd[i], b.nd[i], RMax(One, b.nd[i]))
               /\ Close(R("1e-7"), a.p[i], b.p[i], ps)
SameLength == AtStart /\ Run.mode = "exact" => Len(Run.snaps) = Len(Run.orig)
=============================================================================
