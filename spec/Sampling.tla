------------------------------ MODULE Sampling ------------------------------
(* Points drawn from ellipsoids and ellipsoidal shells, and Fibonacci lattices.  A sample claimed to
   be uniform is judged by counts in cells of equal probability: a count may deviate from n*p by at
   most 5.5 standard deviations (plus one), which an honest sample exceeds with probability < 1e-7. *)
EXTENDS R, SequencesExt, FiniteSets, Folds, TLC

InBall(x, axes) == [k \in 1..Len(axes) |-> Div(x[k], axes[k])]     \* the ellipsoid mapped to the unit ball
Norm2(z) == SumSeq([k \in 1..Len(z) |-> Sq(z[k])])
Norm(z) == Sqrt(Norm2(z))
Within(x, axes, tol) == Le(Norm2(InBall(x, axes)), Add(One, tol))

\* cells: a sequence of cell numbers in 1..m, each equally probable
Fair(cells, m) ==
  LET n == Len(cells)
      counts == FoldLeft(LAMBDA acc, c : [acc EXCEPT ![c] = @ + 1], [c \in 1..m |-> 0], cells)
      mean == Frac(n, m)
      bound == Add(One, Mul(Num("5.5"), Sqrt(Mul(mean, Frac(m-1, m)))))
  IN  \A c \in 1..m : Le(Abs(Sub(FromInt(counts[c]), mean)), bound)
Cell(u, m) == LET c == Floor(Mul(u, FromInt(m))) + 1 IN IF c > m THEN m ELSE IF c < 1 THEN 1 ELSE c
\* the largest deviation of the distribution of values u from the uniform one on [0, 1], at the tenths
FairCumulative(us) ==
  LET n == Len(us) cells == [k \in 1..n |-> Cell(us[k], 10)]
      counts == FoldLeft(LAMBDA acc, c : [acc EXCEPT ![c] = @ + 1], [c \in 1..10 |-> 0], cells)
      upto(t) == FoldLeft(LAMBDA a, c : a + counts[c], 0, [c \in 1..t |-> c])
  IN  \A t \in 1..10 : Le(Abs(Sub(FromInt(upto(t)), Frac(n*t, 10))), Mul(Num("3.3"), Sqrt(FromInt(n))))
Bit(b) == IF b THEN 1 ELSE 0
\* direction cells: signs, and which component is the largest
Sector(z) == LET d == Len(z)
                 big == CHOOSE k \in 1..d : (\A j \in 1..d : Le(Abs(z[j]), Abs(z[k]))) /\ (\A j \in 1..(k-1) : Lt(Abs(z[j]), Abs(z[k])))
             IN  1 + Bit(Lt(Zero, z[1])) + 2*Bit(Lt(Zero, z[2])) + (IF d = 3 THEN 4*Bit(Lt(Zero, z[3])) + 8*(big-1) ELSE 4*(big-1))
Sectors(d) == IF d = 3 THEN 24 ELSE 8
\* Archimedes: in three dimensions every component of a random direction is uniform
DirectionsFair(zs, d) ==
  LET hat == [k \in 1..Len(zs) |-> LET n == Norm(zs[k]) IN [j \in 1..d |-> Div(zs[k][j], n)]]
  IN  /\ Fair([k \in 1..Len(zs) |-> Sector(zs[k])], Sectors(d))
      /\ d = 3 => \A j \in 1..3 : Fair([k \in 1..Len(zs) |-> Cell(Div(Add(hat[k][j], One), Two), 8)], 8)
Octants(xs, d) == Fair([k \in 1..Len(xs) |-> 1 + Bit(Lt(Zero, xs[k][1])) + 2*Bit(Lt(Zero, xs[k][2])) + (IF d = 3 THEN 4*Bit(Lt(Zero, xs[k][3])) ELSE 0)], IF d = 3 THEN 8 ELSE 4)
RadiiFair(zs, d) == FairCumulative([k \in 1..Len(zs) |-> Pow(Norm(zs[k]), FromInt(d))])

\* ---- shells between similar ellipsoids: the inner one is the outer one shrunk by the factor f
ShellVolume(zs, d, f) == FairCumulative([k \in 1..Len(zs) |-> Div(Sub(Pow(Norm(zs[k]), FromInt(d)), Pow(f, FromInt(d))), Sub(One, Pow(f, FromInt(d))))])
ShellDepth(zs, f) == FairCumulative([k \in 1..Len(zs) |-> Div(Sub(Norm(zs[k]), f), Sub(One, f))])

\* ---- membership in shell k (1-based) of nested ellipsoids
InShell(x, axes, k) == Within(x, axes[k], Zero) /\ (k > 1 => Lt(One, Norm2(InBall(x, axes[k-1]))))

\* ---- Fibonacci lattices
Dist(p, q) == Norm([k \in 1..3 |-> Sub(p[k], q[k])])
OnSphere(ps) == \A k \in 1..Len(ps) : Near(Norm2(ps[k]), One, Num("1e-9"))
\* n points: no two closer than 1.9/sqrt(n), no direction further than 3/sqrt(n) from all, balanced
Spread(ps) == LET n == Len(ps) r == Sqrt(FromInt(n)) IN
  /\ \A i \in 1..n : \A j \in 1..(i-1) : Le(Div(Num("1.9"), r), Dist(ps[i], ps[j]))
  /\ n > 1 => \A v \in {w \in [1..3 -> (0-2)..2] : w # [k \in 1..3 |-> 0]} :
                LET u == [k \in 1..3 |-> FromInt(v[k])] l == Norm(u) h == [k \in 1..3 |-> Div(u[k], l)]
                IN  \E i \in 1..n : Le(Dist(ps[i], h), Div(FromInt(3), r))
  /\ n > 1 => Le(Norm([k \in 1..3 |-> SumSeq([i \in 1..n |-> ps[i][k]])]), Num("1.5"))
==============================================================================
