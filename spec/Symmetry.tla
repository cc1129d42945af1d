------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* Changes of description that the physics cannot tell (property C25):     *)
(* moving, mirroring and exchanging axes, numbering the particles in       *)
(* another order, and measuring in other units.                            *)
(*                                                                         *)
(* A change of description y is a record                                   *)
(*   axes, sign, off   new coordinate a is off[a] + len*sign[a]*old[axes[a]]*)
(*   ren               new particle j is old particle ren[j]               *)
(*   len, tim, den     factors of lengths, times and densities             *)
(***************************************************************************)
EXTENDS MPS

Turn(y, u) == LET f(a) == y.sign[a] (.) u[y.axes[a]] IN <<f(1), f(2), f(3)>>
Place(y, x)  == VAdd(y.off, VScale(y.len, Turn(y, x)))
Speed(y)     == y.len (/) y.tim
PressureUnit(y) == y.den (.) (Speed(y) (.) Speed(y))

Each(y, F(_)) == TLCEval([j \in 1..Len(y.ren) |-> F(y.ren[j])])

\* how a state looks
SymState(y, s) ==
    [ type |-> Each(y, LAMBDA i : s.type[i]),
      ft   |-> Each(y, LAMBDA i : s.ft[i]),
      rho  |-> Each(y, LAMBDA i : y.den (.) s.rho[i]),
      x    |-> Each(y, LAMBDA i : Place(y, s.x[i])),
      v    |-> Each(y, LAMBDA i : VScale(Speed(y), Turn(y, s.v[i]))),
      p    |-> Each(y, LAMBDA i : PressureUnit(y) (.) s.p[i]),
      nd   |-> Each(y, LAMBDA i : s.nd[i]),
      bc   |-> Each(y, LAMBDA i : s.bc[i]) ]

\* how the parameters look
SymParams(y, c) ==
    LET lo == Place(y, c.lo)
        hi == Place(y, c.hi)
        L(r) == y.len (.) r
    IN [c EXCEPT !.l0 = L(@), !.dt = y.tim (.) @, !.end = y.tim (.) @, !.period = y.tim (.) @,
                 !.nu = (y.len (.) Speed(y)) (.) @, !.g = VScale(Speed(y) (/) y.tim, Turn(y, @)),
                 !.thr = L(@), !.cd = L(@), !.reN = L(@), !.reG = L(@), !.reL = L(@), !.reMax = L(@),
                 !.kappa = @ (/) PressureUnit(y), !.cs = Speed(y) (.) @,
                 !.lamL = (y.len (.) y.len) (.) @,
                 !.lo = <<RMin(lo[1], hi[1]), RMin(lo[2], hi[2]), RMin(lo[3], hi[3])>>,
                 !.hi = <<RMax(lo[1], hi[1]), RMax(lo[2], hi[2]), RMax(lo[3], hi[3])>>]
=============================================================================
