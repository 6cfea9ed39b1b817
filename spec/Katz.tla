-------------------------------- MODULE Katz --------------------------------
(* The iterative shape finder (Katz 1991), one state machine per halo and radius.

   State of one iteration: the particles now selected, the axis ratios and axes just found, the
   ellipsoidal radius of every particle, the iteration number.  Every step diagonalises the
   shape tensor of the selection and re-selects; it ends converged (both ratios moved by no more
   than the tolerance), or unconverged (iteration limit passed, or too few particles).

   A job (constant record) holds the data and settings:
     x, m, v     unwrapped positions, masses, velocities        (v only if vel)
     c, vc       centre of the positions / mean velocity
     d, delta    semi-major axis; thickness of the shell (delta = d: full ellipsoid)
     shell, reduced, vel   variants
     tol, wall, min        tolerance, iteration limit, minimum number of particles
   undecided: some strict comparison was closer than the numerical margin, so that floating-point
   rounding decides it; such a job is not used as a witness for or against an implementation.   *)
EXTENDS Periodic

Margin(J) == IF J.vel THEN Num("2e-5") ELSE Num("1e-7")
Close(J, a, b) == Le(Abs(Sub(a, b)), Mul(Margin(J), Max2(Abs(a), Abs(b))))

\* r^2 of every particle in the frame `ax` with ratios q and s
EllR2(J, ax, q, s) ==
  TLCEval([k \in 1..Len(J.x) |->
     LET r == VSub(J.x[k], J.c) IN
     Add(Sq(Dot(ax[1], r)), Add(Div(Sq(Dot(ax[2], r)), Sq(q)), Div(Sq(Dot(ax[3], r)), Sq(s))))])
\* the inner surface of a homoeoid: semi-axes d-delta, q d-delta, s d-delta
InnerR2(J, ax, q, s) ==
  TLCEval([k \in 1..Len(J.x) |->
     LET r == VSub(J.x[k], J.c) IN
     Add(Div(Sq(Dot(ax[1], r)), Sq(Sub(J.d, J.delta))),
         Add(Div(Sq(Dot(ax[2], r)), Sq(Sub(Mul(q, J.d), J.delta))),
             Div(Sq(Dot(ax[3], r)), Sq(Sub(Mul(s, J.d), J.delta)))))])
Full(J) == ~J.shell \/ Eq(J.d, J.delta)

Tensor(J, sel, r2) ==
  LET p == IF J.vel THEN J.v ELSE J.x
      o == IF J.vel THEN J.vc ELSE J.c
      n == Len(sel)
      w == TLCEval([j \in 1..n |-> IF J.reduced THEN Div(J.m[sel[j]], r2[sel[j]]) ELSE J.m[sel[j]]])
      y == TLCEval([j \in 1..n |-> VSub(p[sel[j]], o)])
      M == SumSeq([j \in 1..n |-> J.m[sel[j]]])
      T(a, b) == Div(SumSeq([j \in 1..n |-> Mul(w[j], Mul(y[j][a], y[j][b]))]), M)
      xx == T(1,1) yy == T(2,2) zz == T(3,3) xy == T(1,2) xz == T(1,3) yz == T(2,3)
  IN TLCEval(<<<<xx, xy, xz>>, <<xy, yy, yz>>, <<xz, yz, zz>>>>)

Sphere(J) ==
  LET r2 == EllR2(J, Id3, One, One)
      lo == Sq(Sub(J.d, J.delta))
      hi == Sq(J.d)
      In(k) == Lt(r2[k], hi) /\ (J.shell => Ge(r2[k], lo))
      und == \E k \in 1..Len(J.x) : Close(J, r2[k], hi) \/ (J.shell /\ ~Full(J) /\ Close(J, r2[k], lo))
  IN [pc |-> "run", sel |-> Where(Len(J.x), In), r2 |-> r2, q |-> One, s |-> One, ax |-> Id3,
      err |-> One, it |-> 1, und |-> und, gap |-> One]

Failed(J, S) == Gt(S.err, J.tol) /\ (S.it > J.wall \/ Len(S.sel) < J.min)
Settled(J, S) == ~Gt(S.err, J.tol)

Step(J, S) ==
  LET e  == TLCEval(Eigen(Tensor(J, S.sel, S.r2)))
      q  == Sqrt(Div(e.val[2], e.val[1]))
      s  == Sqrt(Div(e.val[3], e.val[1]))
      er == Max2(Div(Abs(Sub(q, S.q)), S.q), Div(Abs(Sub(s, S.s)), S.s))
      r2 == EllR2(J, e.vec, q, s)
      i2 == InnerR2(J, e.vec, q, s)
      hi == Sq(J.d)
      In(k) == Lt(r2[k], hi) /\ (~Full(J) => Ge(i2[k], One))
      und == \/ \E k \in 1..Len(J.x) : Close(J, r2[k], hi) \/ (~Full(J) /\ Close(J, i2[k], One))
             \/ Le(Abs(Sub(er, J.tol)), Mul(Num("1e-5"), Max2(J.tol, Num("1e-4"))))
             \/ Lt(s, Num("1e-4"))
             \/ (J.reduced /\ \E k \in 1..Len(J.x) : Lt(r2[k], Mul(hi, Num("1e-14"))))
  IN [pc |-> "run", sel |-> Where(Len(J.x), In), r2 |-> r2, q |-> q, s |-> s, ax |-> e.vec, err |-> er,
      it |-> S.it + 1, und |-> S.und \/ und,
      gap |-> Min2(Sub(One, q), Div(Sub(q, s), q))]

\* One step of the whole machine
Advance(J, S) ==
  IF Settled(J, S) THEN [S EXCEPT !.pc = "converged"]
  ELSE IF Failed(J, S) THEN [S EXCEPT !.pc = "missing"]
  ELSE Step(J, S)

---------------------------------------------------------------------------
(* What an implementation may report for a job that has ended in state S.
   o: [conv, d, q, s, major, inter, minor]                                                  *)
AllNaN(t) == \A c \in DOMAIN t : IsNaN(t[c])
Parallel(a, b, tol) == Le(Sub(One, Abs(Dot(a, b))), tol)
Clauses(J, S, o, tolq) ==
  LET tq == Num(tolq) IN
  IF S.pc = "missing"
  THEN {w \in {"should-be-missing", "flag"} :
          \/ w = "should-be-missing" /\ ~(IsNaN(o.d) /\ IsNaN(o.q) /\ IsNaN(o.s) /\ AllNaN(o.major) /\ AllNaN(o.inter) /\ AllNaN(o.minor))
          \/ w = "flag" /\ o.conv}
  ELSE {w \in {"missing", "flag", "d", "q", "s", "major", "inter", "minor"} :
          \/ w = "missing" /\ (IsNaN(o.q) \/ IsNaN(o.s))
          \/ w = "flag" /\ ~o.conv
          \/ w = "d" /\ ~NearRel(o.d, J.d, Num("1e-6"))
          \/ w = "q" /\ ~NearRel(o.q, S.q, tq)
          \/ w = "s" /\ ~NearRel(o.s, S.s, tq)
          \* axes are defined up to sign, and only where the lengths differ
          \/ w = "major" /\ Gt(Sub(One, S.q), Num("1e-3")) /\ ~Parallel(o.major, S.ax[1], Num("1e-6"))
          \/ w = "inter" /\ Gt(S.gap, Num("1e-3")) /\ ~Parallel(o.inter, S.ax[2], Num("1e-6"))
          \/ w = "minor" /\ Gt(Sub(S.q, S.s), Mul(S.q, Num("1e-3"))) /\ ~Parallel(o.minor, S.ax[3], Num("1e-6"))}

---------------------------------------------------------------------------
(* Symmetry.  Turning all data by the orthogonal matrix Q (rows) and scaling lengths by f turns
   the outcome: axes are turned, extents scaled, ratios and verdict unchanged.               *)
Turn(Q, a) == <<Dot(Q[1], a), Dot(Q[2], a), Dot(Q[3], a)>>
TurnState(Q, S) == IF S.pc = "missing" THEN S
                   ELSE [S EXCEPT !.ax = <<Turn(Q, S.ax[1]), Turn(Q, S.ax[2]), Turn(Q, S.ax[3])>>]
ScaleJob(f, J) == [J EXCEPT !.d = Mul(f, J.d)]

(* A well-formed report, whatever the data. *)
Ortho(a, b) == Le(Abs(Dot(a, b)), Num("1e-6"))
UnitLen(a)  == Le(Abs(Sub(Norm2(a), One)), Num("1e-6"))
WellFormed(o) ==
  IF o.conv
  THEN {w \in {"ratios", "not-orthogonal", "not-unit"} :
          \/ w = "ratios" /\ ~(Gt(o.s, Zero) /\ Le(o.s, o.q) /\ Le(o.q, One) /\ Gt(o.d, Zero))
          \/ w = "not-orthogonal" /\ ~(Ortho(o.major, o.inter) /\ Ortho(o.major, o.minor) /\ Ortho(o.inter, o.minor))
          \/ w = "not-unit" /\ ~(UnitLen(o.major) /\ UnitLen(o.inter) /\ UnitLen(o.minor))}
  ELSE {w \in {"unconverged-not-missing"} :
          ~(IsNaN(o.d) /\ IsNaN(o.q) /\ IsNaN(o.s) /\ AllNaN(o.major) /\ AllNaN(o.inter) /\ AllNaN(o.minor))}
=============================================================================
