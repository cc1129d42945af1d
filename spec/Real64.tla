------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* Real arithmetic for the MPS-Basic specifications.                       *)
(*                                                                         *)
(* TLC has no real numbers.  This module names the operations on the reals *)
(* and on 3-vectors that the specifications use; the definitions below say *)
(* what each one means (over the standard module Reals), and TLC evaluates *)
(* them through /verif/java/src/mpsv/Real64.java, which interprets every   *)
(* real as an IEEE double.  Nothing in that class knows anything about     *)
(* MPS-Basic.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences

R(s)   == CHOOSE x : x = s      \* the real spelt by the string s ("0.025", "0x1.8p3")
RI(i)  == CHOOSE x : x = i      \* the integer i as a real
RQ(p, q) == CHOOSE x : x = <<p, q>>   \* the rational p/q as a real

a \oplus b  == CHOOSE x : x = <<a, b>>   \* a + b
a \ominus b == CHOOSE x : x = <<a, b>>   \* a - b
a \odot b   == CHOOSE x : x = <<a, b>>   \* a * b
a \oslash b == CHOOSE x : x = <<a, b>>   \* a / b
a \prec b   == CHOOSE x : x \in BOOLEAN  \* a < b
a \preceq b == CHOOSE x : x \in BOOLEAN  \* a <= b

RSqrt(a) == CHOOSE x : x \odot x = a
RSin(a)  == CHOOSE x : TRUE
RCos(a)  == CHOOSE x : TRUE
RAbs(a)  == IF a \prec RI(0) THEN RI(0) \ominus a ELSE a
RMin(a, b) == IF b \prec a THEN b ELSE a
RMax(a, b) == IF a \prec b THEN b ELSE a
RFinite(a) == CHOOSE x : x \in BOOLEAN   \* TRUE of every real; FALSE of nan and inf in a recorded trace
RFloor(a)  == CHOOSE i \in Nat : RI(i) \preceq a /\ a \prec RI(i+1)

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RI(0) ELSE s[1] \oplus RSum(Tail(s))

RECURSIVE MinOf(_, _)
MinOf(m, s) == IF s = <<>> THEN m ELSE MinOf(RMin(m, Head(s)), Tail(s))
RECURSIVE MaxOf(_, _)
MaxOf(m, s) == IF s = <<>> THEN m ELSE MaxOf(RMax(m, Head(s)), Tail(s))

VAdd(u, v) == <<u[1] \oplus v[1], u[2] \oplus v[2], u[3] \oplus v[3]>>
VSub(u, v) == <<u[1] \ominus v[1], u[2] \ominus v[2], u[3] \ominus v[3]>>
VScale(k, v) == <<k \odot v[1], k \odot v[2], k \odot v[3]>>
VDot(u, v) == ((u[1] \odot v[1]) \oplus (u[2] \odot v[2])) \oplus (u[3] \odot v[3])
VNorm(v)   == RSqrt(VDot(v, v))
RECURSIVE VSum(_)
VSum(s) == IF s = <<>> THEN <<RI(0), RI(0), RI(0)>> ELSE VAdd(s[1], VSum(Tail(s)))

\* The solution x of the linear system A x = b (A a sequence of rows), <<>> if A is singular.
LinSolve(A, b) ==
    LET n == Len(b)
        Sol(x) == \A i \in 1..n : RSum([j \in 1..n |-> A[i][j] \odot x[j]]) = b[i]
    IN IF \E x : Sol(x) THEN CHOOSE x : Sol(x) ELSE <<>>

\* The same with A given by its nonzero entries: row i is a sequence of <<j, a_ij>>; entries for the same j add up.
SpSolve(A, b) ==
    LET n == Len(b)
        Row(i) == [j \in 1..n |-> RSum([k \in 1..Len(A[i]) |-> IF A[i][k][1] = j THEN A[i][k][2] ELSE RI(0)])]
    IN LinSolve([i \in 1..n |-> Row(i)], b)

\* For each point i of x with live[i]: the other live points j strictly closer than r, as pairs <<j, distance>>.
NearPairs(x, live, r) ==
    LET n == Len(x)
        D(i, j) == VNorm(VSub(x[j], x[i]))
        Near(i, j) == live[i] /\ live[j] /\ i # j /\ D(i, j) \prec r
        RECURSIVE Upto(_, _)
        Upto(i, j) == IF j = 0 THEN <<>> ELSE
                      IF Near(i, j) THEN Append(Upto(i, j-1), <<j, D(i, j)>>) ELSE Upto(i, j-1)
    IN [i \in 1..n |-> Upto(i, n)]

\* The records of an ndjson file; a JSON string "#..." stands for the real it spells.
ReadTrace(path) == CHOOSE x : TRUE
=============================================================================
