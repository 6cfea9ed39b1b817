------------------------------ MODULE MockHalo ------------------------------
(* The mock-halo generator.  A halo of total mass M within the last of the ellipsoidal shells is
   filled shell by shell: the first proper shell (between the first two ellipsoids) gets
   round(res*M_1/M) particles and every other shell the number that its mass prescribes relative to
   it.  While the first proper shell would get none, every other ellipsoid is dropped (the last
   is always kept).                                                                            *)
EXTENDS Models, SequencesExt, Folds, TLC

\* keep the 1st, 3rd, ... and the last
Thin(s) == LET odd == [k \in 1..((Len(s) + 1) \div 2) |-> s[2*k - 1]]
           IN  IF Len(s) % 2 = 1 THEN odd ELSE Append(odd, s[Len(s)])

\* mass between radii r0 and r1 for unit characteristic density: Simpson's rule in log r
Fifty == 50
MassBetween(m, r0, r1, p, n) ==        \* n even
  LET l0 == Log(r0)
      h  == Div(Sub(Log(r1), l0), FromInt(n))
      w(k) == IF k = 0 \/ k = n THEN 1 ELSE IF k % 2 = 1 THEN 4 ELSE 2
      f(k) == LET r == Exp(Add(l0, Mul(FromInt(k), h)))
              IN  Mul(FromInt(w(k)), Mul(Mul(r, Sq(r)), Shape(m, Div(r, p.r_s), p)))
  IN  Mul(Mul(Mul(FromInt(4), Num("3.141592653589793")), Div(h, FromInt(3))), SumSeq([k \in 1..(n+1) |-> f(k-1)]))
Inner == Num("1e-8")
Total(m, a, p)   == MassBetween(m, Inner, a[Len(a)], p, 800)
ShellMass(m, a, p, k) == IF k = 1 THEN MassBetween(m, Inner, a[1], p, 800) ELSE MassBetween(m, a[k-1], a[k], p, 40)

\* the integers a count may be when the mass integrals are known to the given relative precision
Round(x) == Floor(Add(x, Num("0.5")))
Precision == Num("2e-5")
Counts(x) == {Round(Mul(x, Sub(One, Precision))), Round(Mul(x, Add(One, Precision)))}
==============================================================================
