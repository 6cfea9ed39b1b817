---------------------------- MODULE MassBinsTrace ----------------------------
(* Recorded splits, summaries and tests judged against MassBins. *)
EXTENDS MassBins, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : NearRel(a[k], b[k], Num("1e-12"))
SameVecs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(a[k], b[k])
Close(a, b) == Near(a, b, Num("1e-9"))
CloseAll(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k])
Clause(ok, name) == IF ok THEN <<>> ELSE <<name>>
PickAll(s, idx) == [k \in 1..Len(idx) |-> s[idx[k]]]
SplitClauses(c) ==
  LET idx == [g \in 1..Len(c.idx) |-> [p \in 1..Len(c.idx[g]) |-> c.idx[g][p] + 1]]
  IN  IF ~Covers(c.m, idx) THEN <<"every-halo-once">>
      ELSE Clause(Ordered(c.m, idx), "ordered") \o Clause(Full(Len(c.m), c.nb, idx), "equally-full")
           \o Clause(Same(c.edges, Edges(c.m, idx)), "edges")
           \o Clause(SameVecs(c.masses, [g \in 1..Len(idx) |-> PickAll(c.m, idx[g])]), "masses")
           \o Clause(Len(c.centres) = Len(idx) /\ \A g \in 1..Len(idx) : SameVecs(c.centres[g], PickAll(c.x, idx[g])), "centres")
           \o Clause(IF c.hasv THEN Len(c.v) = Len(idx) /\ \A g \in 1..Len(idx) : SameVecs(c.v[g], PickAll(c.u, idx[g])) ELSE TRUE, "vectors")
AllB(n, P(_)) == \A b \in 1..n : P(b)
SummaryClauses(c) ==
  LET n == Len(c.bins)
  IN  IF ~(Len(c.mid) = n /\ Len(c.lo) = n /\ Len(c.hi) = n) THEN <<"length">>
      ELSE CASE c.how = "SEM" -> Clause(AllB(n, LAMBDA b : Close(c.mid[b], Mean(c.bins[b]))), "mean")
                                 \o Clause(AllB(n, LAMBDA b : Close(c.lo[b], SEM(c.bins[b])) /\ Close(c.hi[b], SEM(c.bins[b]))), "error-of-the-mean")
             [] c.how = "median_quantile" -> Clause(AllB(n, LAMBDA b : Close(c.mid[b], Median(c.bins[b]))), "median")
                                 \o Clause(AllB(n, LAMBDA b : Close(c.lo[b], QuartileOverRootN(c.bins[b], 1)) /\ Close(c.hi[b], QuartileOverRootN(c.bins[b], 3))), "quartiles")
             [] OTHER -> Clause(AllB(n, LAMBDA b : Close(c.mid[b], Mean(c.bins[b]))), "mean")
                         \o Clause(AllB(n, LAMBDA b : LET e == BootError(c.bins[b])
                                                     IN  IF IsNaN(e) THEN IsNaN(c.lo[b]) /\ IsNaN(c.hi[b])
                                                         ELSE /\ Eq(c.lo[b], c.hi[b])
                                                              /\ Le(Sub(Mul(Num("0.7"), e), Num("1e-12")), c.lo[b])
                                                              /\ Le(c.lo[b], Add(Mul(Num("1.4"), e), Num("1e-12")))), "spread-of-resampled-means")
ChiClauses(c, a, b) == LET chi == ChiSquare(a, b) k == Len(a) - 1
                       IN  Clause(Close(c.chi, chi), "chi-square")
                           \o Clause(IF IsNaN(chi) THEN IsNaN(c.dof) ELSE Eq(c.dof, FromInt(k)), "degrees-of-freedom")
                           \o Clause(IF k = 0 THEN TRUE ELSE Near(c.p, ChiTail(chi, k), Num("1e-8")), "p-value")
\* values of the objects' profiles, grouped by the radius of the common grid nearest to theirs
Curve(c, d, par) ==
  LET n == c.bins + 1
      grid == [r \in 1..n |-> Exp(Mul(Log(FromInt(10)), Add(c.start, Mul(Frac(r-1, c.bins), Sub(c.end, c.start)))))]
      at == c.r200      \* position of R200 in the profile
      rel(o, r) == Div(d[o][r], d[o][at])
      nearest(x) == CHOOSE k \in 1..n : \A q \in 1..n : Le(Abs(Sub(grid[k], x)), Abs(Sub(grid[q], x))) /\ (q < k => Lt(Abs(Sub(grid[k], x)), Abs(Sub(grid[q], x))))
      kept == {<<o, r>> \in (1..Len(d)) \X (1..n) : ~IsNaN(par[o][r]) /\ Le(rel(o, r), Mul(grid[n], Num("1.0000000001")))}
      bin(k) == SetToSeq({p \in kept : nearest(rel(p[1], p[2])) = k})
  IN  [k \in 1..n |-> LET b == bin(k) IN [q \in 1..Len(b) |-> par[b[q][1]][b[q][2]]]]
Failed(c) ==
  CASE c.what = "split"   -> SplitClauses(c)
    [] c.what = "blocks"  -> Clause(c.out = Blocks(c.in, c.n), "blocks")
    [] c.what = "summary" -> SummaryClauses(c)
    [] c.what = "counts"  -> ChiClauses(c, c.a, c.b)
    [] c.what = "samples" -> ChiClauses(c, Counts(c.x), Counts(c.y))
    [] c.what = "curves"  -> ChiClauses(c, Counts(Curve(c, c.d1, c.p1)), Counts(Curve(c, c.d2, c.p2)))
    [] OTHER -> IF c.x = <<>> \/ c.y = <<>> THEN Clause(IsNaN(c.d) /\ IsNaN(c.p), "ks-missing")
                ELSE LET h == KSNumber(c.x, c.y)
                     IN  Clause(Close(c.d, Frac(h, Len(c.x)*Len(c.y))), "ks-statistic")
                         \o Clause(Near(c.p, KSProb(Len(c.x), Len(c.y), h), Num("1e-7")), "ks-p-value")
Text(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "," \o b, "", s)
Judge == /\ ~done /\ done' = TRUE /\ i' = i
         /\ LET f == Failed(Cases[i]) IN PrintT("R|" \o ToString(i) \o "|" \o IF f = <<>> THEN "OK" ELSE Cases[i].what \o ": " \o Text(f))
Spec == Init /\ [][Judge]_<<i, done>>
===============================================================================
