------------------------------ MODULE Profiles ------------------------------
(* Density profiles of one halo: directly binned in spherical shells, directly binned in
   ellipsoidal shells that follow the halo's local shape catalogue, and kernel-based.

   A halo H: x, m (unwrapped positions, masses), c (centre), r200; rr: the requested radii in
   units of r200.  Each operator yields for shell (or radius) k the density and whether a
   particle lies within the numerical margin of a surface (then the value is undecided).       *)
EXTENDS Periodic

Pi == Num("3.141592653589793")
SphVol == Mul(Frac(4, 3), Pi)
Mg == Num("2e-6")
NearOne(a) == Le(Abs(Sub(a, One)), Mg)

\* ---- spherical shells: edges at the midpoints, from the centre to the last radius
SphEdge(rr, k) ==      \* lower edge of shell k; edge Len(rr)+1 is the outer end
  IF k = 1 THEN Zero ELSE IF k = Len(rr) + 1 THEN rr[Len(rr)] ELSE Div(Add(rr[k-1], rr[k]), Two)
Dist(H, n) == Norm(VSub(H.x[n], H.c))
SphShell(H, rr, k) ==
  LET lo == Mul(SphEdge(rr, k), H.r200)
      hi == Mul(SphEdge(rr, k + 1), H.r200)
      dist == TLCEval([n \in 1..Len(H.x) |-> Dist(H, n)])
      in == SelectSeq([n \in 1..Len(H.x) |-> n], LAMBDA n : Ge(dist[n], lo) /\ Lt(dist[n], hi))
      M == SumSeq([j \in 1..Len(in) |-> H.m[in[j]]])
      V == Mul(SphVol, Sub(Mul(hi, Sq(hi)), Mul(lo, Sq(lo))))
  IN [rho |-> Div(M, V), mass |-> M, n |-> Len(in), vol |-> V,
      und |-> \E n \in 1..Len(H.x) : NearOne(Div(dist[n], hi)) \/ (Gt(lo, Zero) /\ NearOne(Div(dist[n], lo)))
                                      \/ Lt(dist[n], Mul(H.r200, Num("1e-6")))]

\* ---- ellipsoidal shells
Mid(rr, k) == Div(Add(rr[k], rr[k+1]), Two)
EllEdge(rr, k) ==
  IF k = 1 THEN Div(Sq(Mid(rr, 1)), Mid(rr, 2)) ELSE IF k = Len(rr) + 1 THEN rr[Len(rr)] ELSE Mid(rr, k - 1)

\* piecewise linear interpolation through (xs[i], ys[i]), xs ascending, extended at both ends
Segment(xs, t) == IF Len(xs) = 1 THEN 1 ELSE
   CHOOSE j \in 1..(Len(xs) - 1) : (j = 1 \/ Gt(t, xs[j])) /\ (j = Len(xs) - 1 \/ Le(t, xs[j+1]))
Lin(xs, ys, t) == LET j == Segment(xs, t)
                  IN Add(ys[j], Mul(Div(Sub(ys[j+1], ys[j]), Sub(xs[j+1], xs[j])), Sub(t, xs[j])))
\* axes are directions: only defined up to sign, so neighbours are made to point the same way
RECURSIVE Align(_, _)
Align(axs, k) == IF k > Len(axs) THEN axs
                 ELSE Align([axs EXCEPT ![k] = IF Lt(Dot(axs[k-1], axs[k]), Zero) THEN VScale(RNeg(One), axs[k]) ELSE axs[k]], k + 1)
LinV(xs, ys, t) == Unit(<<Lin(xs, [k \in 1..Len(ys) |-> ys[k][1]], t), Lin(xs, [k \in 1..Len(ys) |-> ys[k][2]], t),
                          Lin(xs, [k \in 1..Len(ys) |-> ys[k][3]], t)>>)

(* sh: the local shape catalogue of the halo at its converged radii: d, q, s, major, inter, minor.
   gap: TRUE if some radius of the catalogue is unconverged; then only shells between converged
   radii are determined.                                                                      *)
EllShell(H, rr, k, sh, gap) ==
  LET e1 == Mul(EllEdge(rr, k), H.r200)
      e2 == Mul(EllEdge(rr, k + 1), H.r200)
      t  == Mul(rr[k], H.r200)
      qd == TLCEval([j \in 1..Len(sh.d) |-> Mul(sh.q[j], sh.d[j])])
      sd == TLCEval([j \in 1..Len(sh.d) |-> Mul(sh.s[j], sh.d[j])])
      a1 == Lin(sh.d, sh.d, e1)  b1 == Lin(sh.d, qd, e1)  c1 == Lin(sh.d, sd, e1)
      a2 == Lin(sh.d, sh.d, e2)  b2 == Lin(sh.d, qd, e2)  c2 == Lin(sh.d, sd, e2)
      u  == LinV(sh.d, Align(sh.major, 2), t)
      v  == LinV(sh.d, Align(sh.inter, 2), t)
      w  == LinV(sh.d, Align(sh.minor, 2), t)
      f(n, a, b, c) == LET y == VSub(H.x[n], H.c) IN
                       Add(Sq(Div(Dot(u, y), a)), Add(Sq(Div(Dot(v, y), b)), Sq(Div(Dot(w, y), c))))
      f1 == TLCEval([n \in 1..Len(H.x) |-> f(n, a1, b1, c1)])
      f2 == TLCEval([n \in 1..Len(H.x) |-> f(n, a2, b2, c2)])
      in == SelectSeq([n \in 1..Len(H.x) |-> n], LAMBDA n : Ge(f1[n], One) /\ Lt(f2[n], One))
      M == SumSeq([j \in 1..Len(in) |-> H.m[in[j]]])
      V == Mul(SphVol, Sub(Mul(a2, Mul(b2, c2)), Mul(a1, Mul(b1, c1))))
      sure == Len(sh.d) >= 2 /\ (gap => /\ Ge(e1, sh.d[1]) /\ Le(e2, sh.d[Len(sh.d)])
                                        /\ Ge(t, sh.d[1]) /\ Le(t, sh.d[Len(sh.d)]))
  IN IF ~sure THEN [rho |-> NaN, n |-> 0, und |-> TRUE] ELSE
     [rho |-> IF Len(in) = 0 THEN NaN ELSE Div(M, V), n |-> Len(in),
      und |-> \/ \E n \in 1..Len(H.x) : NearOne(f1[n]) \/ NearOne(f2[n])
              \/ \E j \in 2..Len(sh.d) : \* no common orientation to speak of
                    \E ax \in {sh.major, sh.inter, sh.minor} : Lt(Abs(Dot(ax[j-1], ax[j])), Num("1e-4"))]

\* ---- kernel-based
KernelW(H, n) == Mul(Mul(Num("0.005"), H.r200), Sqrt(Div(Dist(H, n), Mul(Num("0.1"), H.r200))))
KTilde(r, ri, h) ==
  LET pre == Div(One, Mul(Two, Pow(Mul(Two, Pi), Num("1.5"))))
      g(t) == Exp(RNeg(Div(Sq(t), Mul(Two, Sq(h)))))
  IN Mul(Div(Mul(pre, Sq(h)), Mul(r, ri)), Sub(g(Sub(ri, r)), g(Add(ri, r))))
\* A particle at the centre has a kernel without width: it adds nothing at any distance worth the name.
Core(H, n) == Lt(Dist(H, n), Mul(H.r200, Num("1e-6")))
KernelDens(H, rr, k) ==
  LET r == Mul(rr[k], H.r200)
      term(n) == IF Core(H, n) /\ Gt(rr[k], Num("1e-3")) THEN Zero ELSE LET h == KernelW(H, n) IN Div(Mul(H.m[n], KTilde(r, Dist(H, n), h)), Mul(h, Sq(h)))
      all == TLCEval([n \in 1..Len(H.x) |-> term(n)])
  IN [rho |-> SumSeq(all), n |-> Len(H.x), und |-> Le(rr[k], Num("1e-3")) /\ \E n \in 1..Len(H.x) : Core(H, n)]
=============================================================================
