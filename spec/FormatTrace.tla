----------------------------- MODULE FormatTrace -----------------------------
(***************************************************************************)
(* Snapshots as files (property C14): each recording has, per snapshot of  *)
(* a run, the prof, csv and vtu file in tokens, the file numbers found in  *)
(* the three directories, and the same run repeated with the other vtu     *)
(* format.                                                                 *)
(***************************************************************************)
EXTENDS Real64, Integers, Sequences, FiniteSets, TLC

CONSTANT TraceFile
Runs == ReadTrace(TraceFile)
VARIABLES run, k
tvars == <<run, k>>
Run == Runs[run]
Snap == Run.snaps[k]

TInit == run \in 1..Len(Runs) /\ k = 0
TNext == \/ /\ k < Len(Run.snaps) /\ k' = k + 1 /\ UNCHANGED run
         \/ /\ k = Len(Run.snaps) /\ k' = k + 1 /\ UNCHANGED run
            /\ PrintT(<<"TALLY", run, Run.name, [snapshots |-> Len(Run.snaps), particles |-> Len(Run.snaps) * Run.n]>>)
TSpec == TInit /\ [][TNext]_tvars
At == k \in 1..Len(Run.snaps)

\* The three directories hold the same numbers.
SameNumbers == /\ Len(Run.snaps) >= 1
               /\ Run.nums.prof = Run.nums.csv /\ Run.nums.csv = Run.nums.vtu
               /\ Run.nums.prof = [m \in 1..Len(Run.snaps) |-> m - 1]

\* Text has six significant digits; binary has all of them.
Six == R("5.001e-6")
Near(a, b) == \/ a = b
              \/ RAbs(a (-) b) \preceq (Six (.) RMax(RAbs(a), RAbs(b)))
              \/ ~RFinite(a) /\ ~RFinite(b) /\ ~(a \preceq b) /\ ~(b \preceq a)   \* both not a number
Twice(a, b) == \/ Near(a, b) \/ RAbs(a (-) b) \preceq (R("1.001e-5") (.) RMax(RAbs(a), RAbs(b)))

\* The text files agree
TextOK == At => Snap.prof.ok /\ Snap.csv.ok
TextCounts == At /\ TextOK =>
    \A f \in {Snap.prof, Snap.csv} :
        /\ f.count = Run.n /\ Len(f.type) = Run.n /\ Len(f.x) = Run.n /\ Len(f.v) = Run.n
TextAgrees == At /\ TextOK /\ TextCounts =>
    /\ Twice(Snap.prof.time, Snap.csv.time)
    /\ Snap.prof.type = Snap.csv.type
    /\ \A i \in 1..Run.n : \A d \in 1..3 :
          Twice(Snap.prof.x[i][d], Snap.csv.x[i][d]) /\ Twice(Snap.prof.v[i][d], Snap.csv.v[i][d])

-----------------------------------------------------------------------------
(* The vtu file *)

\* the arrays of a vtu file: where they are, their types and widths
Layout == [ Position |-> <<"Points", "Float64", 3>>,
            Type |-> <<"PointData", "Int32", 1>>, Velocity |-> <<"PointData", "Float64", 3>>,
            Pressure |-> <<"PointData", "Float64", 1>>, Density |-> <<"PointData", "Float64", 1>>,
            Ratio |-> <<"PointData", "Float64", 1>>, Boundary |-> <<"PointData", "Int32", 1>>,
            FluidType |-> <<"PointData", "Int32", 1>>,
            Connectivity |-> <<"Cells", "Int64", 1>>, Offsets |-> <<"Cells", "Int64", 1>>, Types |-> <<"Cells", "UInt8", 1>>,
            Time |-> <<"FieldData", "Float64", 1>> ]
NameOf == [ Position |-> "Position", Type |-> "Particle Type", Velocity |-> "Velocity", Pressure |-> "Pressure",
            Density |-> "Number Density", Ratio |-> "Number Density Ratio", Boundary |-> "Boundary Condition",
            FluidType |-> "Fluid Type", Connectivity |-> "connectivity", Offsets |-> "offsets", Types |-> "types", Time |-> "Time" ]
Bytes == [ Float64 |-> 8, Int32 |-> 4, Int64 |-> 8, UInt8 |-> 1 ]

Has(f, a) == \E m \in 1..Len(f.arrays) : f.arrays[m].name = NameOf[a] /\ f.arrays[m].section = Layout[a][1]
Arr(f, a) == f.arrays[CHOOSE m \in 1..Len(f.arrays) : f.arrays[m].name = NameOf[a] /\ f.arrays[m].section = Layout[a][1]]
Val(f, a) == Arr(f, a).values

VtuOK(f) == f.ok /\ \A a \in DOMAIN Layout : Has(f, a)
VtuComplete == At => VtuOK(Snap.vtu)

IsValid(f) ==
    /\ f.header = "UInt64" /\ f.order = "LittleEndian"
    /\ f.points = Run.n /\ f.cells = Run.n
    /\ \A m, h \in 1..Len(f.arrays) : m # h => f.arrays[m].name # f.arrays[h].name
    /\ \A a \in DOMAIN Layout :
         LET q == Arr(f, a) IN
         /\ q.type = Layout[a][2]
         /\ a # "Time" => q.comps = Layout[a][3] /\ Len(q.values) = Run.n * Layout[a][3]
         /\ q.format = IF f.binary THEN "appended" ELSE "ascii"
    /\ Arr(f, "Time").tuples = 1 /\ Len(Val(f, "Time")) = 1
    \* blocks of appended data follow each other, without overlap or gap
    /\ \A m \in 1..Len(f.blocks) : f.blocks[m][1] = IF m = 1 THEN 0 ELSE f.blocks[m-1][2]
    \* one vertex cell per particle
    /\ Val(f, "Connectivity") = [i \in 1..Run.n |-> i - 1]
    /\ Val(f, "Offsets") = [i \in 1..Run.n |-> i]
    /\ Val(f, "Types") = [i \in 1..Run.n |-> 1]
VtuValid == At /\ VtuComplete => IsValid(Snap.vtu)
VtuMode == At /\ VtuComplete => Snap.vtu.binary = Run.binary

VtuAgrees == At /\ TextOK /\ TextCounts /\ VtuComplete /\ VtuValid =>
    LET close(a, b) == IF Snap.vtu.binary THEN Near(a, b) ELSE Twice(a, b) IN
    /\ Val(Snap.vtu, "Type") = Snap.prof.type
    /\ Val(Snap.vtu, "FluidType") = Snap.csv.ft
    /\ close(Val(Snap.vtu, "Time")[1], Snap.prof.time)
    /\ \A i \in 1..Run.n : \A d \in 1..3 :
          /\ close(Val(Snap.vtu, "Position")[3*(i-1) + d], Snap.prof.x[i][d])
          /\ close(Val(Snap.vtu, "Velocity")[3*(i-1) + d], Snap.prof.v[i][d])

\* The same run with the other vtu format: every array has the same values
OtherModeAgrees == At /\ VtuComplete /\ VtuValid /\ Run.twin =>
    LET f == Snap.vtu
        g == Snap.other
    IN /\ VtuOK(g) /\ g.binary = ~f.binary /\ IsValid(g)
       /\ \A a \in DOMAIN Layout :
            IF Layout[a][2] = "Float64"
            THEN \A i \in 1..Len(Val(f, a)) : Near(Val(f, a)[i], Val(g, a)[i])
            ELSE Val(f, a) = Val(g, a)

\* The initial snapshot is the input
InputOf(r) == r.snaps[1].csv
InputKept == Len(Run.snaps) >= 1 /\ k = 1 /\ TextOK /\ TextCounts =>
    LET f == Snap.csv IN
    /\ f.type = Run.type /\ f.ft = Run.ft /\ Twice(f.time, Run.t0)
    /\ \A i \in 1..Run.n : \A d \in 1..3 : Twice(f.x[i][d], Run.x[i][d]) /\ Twice(f.v[i][d], Run.v[i][d])
=============================================================================
