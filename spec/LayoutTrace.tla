----------------------------- MODULE LayoutTrace -----------------------------
(***************************************************************************)
(* Conformance of the generated files to Layout: a recording is one file   *)
(* in tokens.  Site <<ix, iy>> is the point l0 * (ix + h, iy + h).         *)
(***************************************************************************)
EXTENDS Layout, Real64
CONSTANT TraceFile
Runs == ReadTrace(TraceFile)
VARIABLES run, k
Run == Runs[run]
TInit == run \in 1..Len(Runs) /\ k = 0 /\ arr = Runs[run].gen /\ at = <<0, 0>> /\ solid = 0
TNext == k = 0 /\ k' = 1 /\ UNCHANGED <<run, lvars>>
         /\ PrintT(<<"TALLY", run, Run.name, [particles |-> Len(Run.type)]>>)
TSpec == TInit /\ [][TNext]_<<lvars, run, k>>

Scale == [dambreak |-> [l0 |-> R("0.025"), h |-> R("0")], hydrostatic |-> [l0 |-> R("0.012"), h |-> R("0.5")]]
L0 == Scale[arr].l0
Coord(x) == RFloor(((x (/) L0) (-) Scale[arr].h) (+) RQ(1, 2))
SiteOf(i) == <<Coord(Run.x[i][1]), Coord(Run.x[i][2])>>
Point(p) == << L0 (.) (RI(p[1]) (+) Scale[arr].h), L0 (.) (RI(p[2]) (+) Scale[arr].h), RI(0) >>

Readable == Run.ok
Counted == Readable => /\ Run.count = Len(Run.type) /\ Len(Run.x) = Len(Run.type) /\ Len(Run.v) = Len(Run.type)
                       /\ Len(Run.type) = Cardinality(Sites(A))
OnLattice == Readable /\ Counted => \A i \in 1..Len(Run.type) : \A d \in 1..3 :
    RAbs(Run.x[i][d] (-) Point(SiteOf(i))[d]) \preceq (R("1e-3") (.) L0)
Complete == Readable /\ Counted /\ OnLattice =>
    /\ {SiteOf(i) : i \in 1..Len(Run.type)} = Sites(A)
    /\ \A i \in 1..Len(Run.type) : Run.type[i] = KindAt(A, SiteOf(i)[1], SiteOf(i)[2])
AtRest == Readable => \A i \in 1..Len(Run.v) : \A d \in 1..3 : Run.v[i][d] = R("0")
StartsAtZero == Readable => Run.time = R("0")
=============================================================================
