------------------------------ MODULE Periodic ------------------------------
(* Periodic boxes and halo centres.
   Unwrap  : a halo's particles moved to the periodic images nearest to its first particle;
   Wrap    : a point moved into the box;
   CoM, Mode : the two kinds of centre.                                                     *)
EXTENDS Vec

UnwrapCoord(y, ref, L) ==
  LET d == Sub(y, ref)  h == Div(L, Two)
  IN IF Gt(d, h) THEN Sub(y, L) ELSE IF Lt(d, RNeg(h)) THEN Add(y, L) ELSE y
Unwrap(x, L) == IF Eq(L, Zero) THEN x
                ELSE TLCEval([k \in 1..Len(x) |-> TLCEval([c \in 1..3 |-> UnwrapCoord(x[k][c], x[1][c], L)])])
WrapCoord(y, L) == IF Eq(L, Zero) THEN y
                   ELSE IF Ge(y, L) THEN Sub(y, L) ELSE IF Lt(y, Zero) THEN Add(y, L) ELSE y
Wrap(y, L) == [c \in 1..3 |-> WrapCoord(y[c], L)]

Extent(x) == LET C(c) == [k \in 1..Len(x) |-> x[k][c]]
                 E(c) == Sub(MaxSeq(C(c)), MinSeq(C(c)))
             IN Max2(E(1), Max2(E(2), E(3)))

\* The shrinking sphere.  Result: [c |-> centre, margin |-> smallest relative distance of any
\* particle to the sphere that decided about it] (a small margin means: numerically undecided).
Shrink == Num("0.83")
MinLeft == 5
RECURSIVE ModeFrom(_, _, _, _)
ModeFrom(m, x, rad, margin) ==
  LET com  == TLCEval(WMean(m, x))
      dist == TLCEval([k \in 1..Len(x) |-> Norm(VSub(x[k], com))])
      in   == SelectSeq([k \in 1..Len(x) |-> k], LAMBDA k : Lt(dist[k], rad))
      mg   == MinSeq(TLCEval([k \in 1..Len(x) |-> Abs(Sub(Div(dist[k], rad), One))]))
      mg2  == Min2(margin, mg)
  IN IF Len(in) < MinLeft THEN [c |-> com, margin |-> mg2]
     ELSE ModeFrom(TLCEval([j \in 1..Len(in) |-> m[in[j]]]), TLCEval([j \in 1..Len(in) |-> x[in[j]]]),
                   Mul(rad, Shrink), mg2)
\* kind "com" or "mode"; rad0 the initial radius
Centre(kind, m, x, rad0) ==
  IF kind = "com" THEN [c |-> TLCEval(WMean(m, x)), margin |-> One] ELSE ModeFrom(m, x, rad0, One)
=============================================================================
