----------------------------- MODULE MassBinsMC -----------------------------
(* Dealing halos, lightest first, into bins: every bin is filled to the chunk length before the
   next is opened.  Checked for all small samples with equal masses, all orders and bin counts.  *)
EXTENDS MassBins
CONSTANTS MaxN, MaxBins, Masses
VARIABLES m, nb, left, groups
vars == <<m, nb, left, groups>>
Real(s) == [k \in 1..Len(s) |-> FromInt(s[k])]
Init == /\ \E n \in 0..MaxN : m \in [1..n -> Masses]
        /\ nb \in 1..MaxBins /\ left = 1..Len(m) /\ groups = <<>>
Lightest == {k \in left : \A j \in left : m[k] <= m[j]}
Deal == \E k \in Lightest :
          /\ left' = left \ {k} /\ UNCHANGED <<m, nb>>
          /\ groups' = IF groups = <<>> \/ Len(groups[Len(groups)]) = Chunk(Len(m), nb) THEN Append(groups, <<k>>)
                       ELSE [groups EXCEPT ![Len(groups)] = Append(@, k)]
Next == Deal \/ (left = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Sound == left = {} => /\ Covers(Real(m), groups) /\ Ordered(Real(m), groups) /\ Full(Len(m), nb, groups)
                      /\ Len(groups) <= nb
                      /\ groups = Blocks(FlattenSeq(groups), IF Len(m) = 0 THEN 1 ELSE Chunk(Len(m), nb))
\* every halo lies between the edges of its own bin
Enclosed == left = {} => \A g \in 1..Len(groups) : \A p \in 1..Len(groups[g]) :
              LET e == Edges(Real(m), groups) x == Real(m)[groups[g][p]] IN Le(e[g], x) /\ Le(x, e[g+1])
\* the tests are symmetric, vanish on equal samples and return probabilities
Tests == left = {} /\ Len(m) > 1 =>
           LET h == Len(m) \div 2
               x == SubSeq(Real(m), 1, h) y == SubSeq(Real(m), h+1, Len(m))
               d == KSNumber(x, y)
               a == SubSeq(m, 1, h) b == SubSeq(m, h+1, 2*h)
           IN  /\ d = KSNumber(y, x) /\ d <= Len(x)*Len(y) /\ KSNumber(x, x) = 0
               /\ Near(KSProb(Len(x), Len(y), d), KSProb(Len(y), Len(x), d), Num("1e-12"))
               /\ Le(Num("-1e-12"), KSProb(Len(x), Len(y), d)) /\ Le(KSProb(Len(x), Len(y), d), One)
               /\ Near(ChiSquare(a, b), ChiSquare(b, a), Num("1e-12")) /\ Near(ChiSquare(a, a), IF SumInt(a) = 0 THEN NaN ELSE Zero, Num("1e-12"))
Tails == \A k \in 1..6 : /\ Near(ChiTail(Zero, k), One, Num("1e-12"))
                         /\ Lt(ChiTail(FromInt(Len(m) + 1), k), ChiTail(FromInt(Len(m)), k))
                         /\ Lt(ChiTail(FromInt(Len(m) + 1), k), ChiTail(FromInt(Len(m) + 1), k + 1))
==============================================================================
