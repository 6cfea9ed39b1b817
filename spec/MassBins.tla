------------------------------ MODULE MassBins ------------------------------
(* Splitting a sample into mass bins, and the summaries and comparisons of binned samples.     *)
EXTENDS R, SequencesExt, FiniteSets, Folds, TLC

\* ---- mass bins: the sample in order of mass, cut into runs of the chunk length
Chunk(n, nb) == (n + nb - 1) \div nb
NGroups(n, nb) == IF n = 0 THEN 0 ELSE (n + Chunk(n, nb) - 1) \div Chunk(n, nb)
GroupSize(n, nb, g) == IF g < NGroups(n, nb) THEN Chunk(n, nb) ELSE n - (NGroups(n, nb) - 1)*Chunk(n, nb)

\* what a split of masses m (reals) into nb bins must be; idx: groups of 1-based numbers
Covers(m, idx) == /\ \A k \in 1..Len(m) : Cardinality({<<g, p>> \in (1..Len(idx)) \X (1..Len(m)) : p <= Len(idx[g]) /\ idx[g][p] = k}) = 1
                  /\ \A g \in 1..Len(idx) : \A p \in 1..Len(idx[g]) : idx[g][p] \in 1..Len(m)
Ordered(m, idx) == \A g \in 1..Len(idx) : \A p \in 1..Len(idx[g]) :
                     /\ p < Len(idx[g]) => Le(m[idx[g][p]], m[idx[g][p+1]])
                     /\ g < Len(idx) => Le(m[idx[g][p]], m[idx[g+1][1]])
Full(n, nb, idx) == /\ Len(idx) = NGroups(n, nb)
                    /\ \A g \in 1..Len(idx) : Len(idx[g]) = GroupSize(n, nb, g)
\* edges: the smallest mass of each group, and the largest of all
Edges(m, idx) == IF idx = <<>> THEN <<>>
                 ELSE [g \in 1..Len(idx) |-> m[idx[g][1]]] \o <<m[idx[Len(idx)][Len(idx[Len(idx)])]]>>
Blocks(s, n) == [b \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (b-1)*n + 1, IF b*n < Len(s) THEN b*n ELSE Len(s))]

\* ---- summaries
Mean(z) == IF z = <<>> THEN NaN ELSE Div(SumSeq(z), FromInt(Len(z)))
Var(z, ddof) == IF Len(z) <= ddof THEN NaN
                ELSE LET mu == Mean(z) IN Div(SumSeq([k \in 1..Len(z) |-> Sq(Sub(z[k], mu))]), FromInt(Len(z) - ddof))
Sorted(z) == SortSeq(z, LAMBDA a, b : Lt(a, b))
\* quantile num/den by linear interpolation between order statistics
Quantile(z, num, den) == IF z = <<>> THEN NaN
                         ELSE LET s == Sorted(z)
                                  a == (num*(Len(z)-1)) \div den
                                  f == Frac((num*(Len(z)-1)) % den, den)
                              IN  IF a + 2 > Len(z) THEN s[a+1]
                                  ELSE Add(s[a+1], Mul(f, Sub(s[a+2], s[a+1])))
Median(z) == Quantile(z, 1, 2)
RootN(z) == Sqrt(FromInt(Len(z)))
SEM(z) == IF Len(z) < 2 THEN NaN ELSE Div(Sqrt(Var(z, 1)), RootN(z))
QuartileOverRootN(z, num) == IF z = <<>> THEN NaN ELSE Div(Quantile(z, num, 4), RootN(z))
\* the spread of the means of resamples of z
BootError(z) == IF z = <<>> THEN NaN ELSE Div(Sqrt(Var(z, 0)), RootN(z))

\* ---- chi-square test of independence of two rows of counts (integers)
SumInt(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ChiSquare(a, b) ==
  LET na == SumInt(a) nb == SumInt(b)
      term(o, row, col) == IF row*col = 0 THEN Zero
                           ELSE LET e == Div(Mul(FromInt(row), FromInt(col)), FromInt(na + nb)) IN Div(Sq(Sub(FromInt(o), e)), e)
  IN  IF na + nb = 0 THEN NaN
      ELSE SumSeq([k \in 1..Len(a) |-> Add(term(a[k], na, a[k] + b[k]), term(b[k], nb, a[k] + b[k]))])
\* upper tail of the chi-square distribution with k degrees of freedom
TailSum(h, start, step(_), n) ==   \* start + start*h/step(1) + ... n terms
  FoldLeft(LAMBDA acc, i : <<Add(acc[1], acc[2]), Div(Mul(acc[2], h), step(i))>>, <<Zero, start>>, [i \in 1..n |-> i])[1]
RootPi == Sqrt(Num("3.141592653589793"))
\* erfc(z), z >= 0: by the series of erf below 3, by the continued fraction above
Erfc(z) == IF Lt(z, FromInt(3))
           THEN Sub(One, Mul(Div(Mul(Two, Exp(RNeg(Sq(z)))), RootPi),
                             TailSum(Mul(Two, Sq(z)), z, LAMBDA i : FromInt(2*i + 1), 120)))
           ELSE LET cf == FoldLeft(LAMBDA acc, i : Add(z, Div(Frac(61 - i, 2), acc)), z, [i \in 1..60 |-> i])
                IN  Div(Exp(RNeg(Sq(z))), Mul(RootPi, cf))
ChiTail(x, k) ==
  LET h == Div(x, Two)
  IN  IF IsNaN(x) THEN NaN
      ELSE IF k % 2 = 0 THEN Mul(Exp(RNeg(h)), TailSum(h, One, LAMBDA i : FromInt(i), k \div 2))
      ELSE Add(Erfc(Sqrt(h)),
               Mul(Exp(RNeg(h)), TailSum(h, Div(Mul(Two, Sqrt(h)), RootPi), LAMBDA i : Frac(2*i + 1, 2), (k - 1) \div 2)))
\* the bin of a value among ten points evenly spread over [0, 1]
TenBin(x) == LET t == Add(Mul(x, FromInt(9)), Num("0.5"))
             IN  IF Lt(t, One) THEN 1 ELSE IF Le(FromInt(9), t) THEN 10 ELSE Floor(t) + 1
Counts(dims) == FlattenSeq([d \in 1..Len(dims) |-> [b \in 1..10 |-> Len(SelectSeq(dims[d], LAMBDA x : TenBin(x) = b))]])

\* ---- Kolmogorov-Smirnov
CountLe(z, x) == Len(SelectSeq(z, LAMBDA y : Le(y, x)))
\* the largest difference of the two distribution functions, times Len(x)*Len(y)
KSNumber(x, y) == FoldLeft(LAMBDA acc, t : LET d == CountLe(x, t)*Len(y) - CountLe(y, t)*Len(x)
                                               a == IF d < 0 THEN 0 - d ELSE d
                                           IN  IF a > acc THEN a ELSE acc, 0, x \o y)
\* the probability that two samples of sizes n and m from one distribution differ by at least h/(n*m):
\* lattice paths from (0,0) to (n,m) that leave the band |i*m - j*n| < h
KSProb(n, m, h) ==
  LET inside(i, j) == LET d == i*m - j*n IN (IF d < 0 THEN 0 - d ELSE d) < h
      row0 == [j \in 1..(m+1) |-> IF \A q \in 0..(j-1) : inside(0, q) THEN One ELSE Zero]
      next(row, i) == FoldLeft(LAMBDA acc, j : Append(acc, IF ~inside(i, j-1) THEN Zero
                                                          ELSE IF j = 1 THEN row[1] ELSE Add(acc[j-1], row[j])),
                               <<>>, [j \in 1..(m+1) |-> j])
      good == FoldLeft(LAMBDA row, i : TLCEval(next(row, i)), row0, [i \in 1..n |-> i])[m+1]
      all  == FoldLeft(LAMBDA acc, k : Div(Mul(acc, FromInt(n + k)), FromInt(k)), One, [k \in 1..m |-> k])
  IN  IF h = 0 THEN One ELSE Sub(One, Div(good, all))
==============================================================================
