--------------------------------- MODULE Plots ---------------------------------
(* What is drawn from catalogues.  A figure is named by the kind of plot, the suffix of the object
   type and the snapshot, and shows curves with bands (medians and quartiles of samples), or a
   normalised histogram, or a halo with its ellipsoids.                                           *)
EXTENDS MassBins
\* ---- histograms: edges e[1] < ... < e[n+1]; the last bin contains its upper edge
Edge(nedges, k) == Frac(k - 1, nedges - 1)                \* equally spaced from 0 to 1
InBin(v, nedges, b) == /\ Le(Edge(nedges, b), v)
                       /\ IF b = nedges - 1 THEN Le(v, One) ELSE Lt(v, Edge(nedges, b + 1))
CountIn(vs, nedges, b) == Cardinality({k \in 1..Len(vs) : InBin(vs[k], nedges, b)})
Counted(vs) == Cardinality({k \in 1..Len(vs) : Le(Zero, vs[k]) /\ Le(vs[k], One)})
Height(vs, nedges, b) == Div(FromInt(CountIn(vs, nedges, b)), Mul(FromInt(Counted(vs)), Frac(1, nedges - 1)))
\* a value so near to an edge that rounding decides
OnEdge(v, nedges) == \E b \in 1..nedges : Near(v, Edge(nedges, b), Num("1e-9"))
\* ---- quantities
Triaxiality(q, s) == Div(Sub(One, Sq(q)), Sub(One, Sq(s)))
\* index of the number of xs nearest to v (the first of several)
Nearest(xs, v) == CHOOSE k \in 1..Len(xs) : \A j \in 1..Len(xs) :
                    LET dk == Abs(Sub(xs[k], v)) dj == Abs(Sub(xs[j], v)) IN IF j < k THEN Lt(dk, dj) ELSE Le(dk, dj)
NoTie(xs, v) == LET k == Nearest(xs, v) IN \A j \in 1..Len(xs) : j = k \/ ~Near(Abs(Sub(xs[j], v)), Abs(Sub(xs[k], v)), Num("1e-9"))
\* second moments in the plane of the sky about a centre, and the ellipticity
Second(xs, m, c, a, b) == SumSeq([k \in 1..Len(xs) |-> Mul(m[k], Mul(Sub(xs[k][a], c[a]), Sub(xs[k][b], c[b])))])
Spin2(xs, m, c) == LET xx == Second(xs, m, c, 1, 1) yy == Second(xs, m, c, 2, 2) xy == Second(xs, m, c, 1, 2)
                   IN  <<Div(Sub(xx, yy), Add(xx, yy)), Div(Mul(Two, xy), Add(xx, yy))>>
Ellipticity(xs, m, c) == LET e == Spin2(xs, m, c) IN Sqrt(Add(Sq(e[1]), Sq(e[2])))
\* seen in a frame turned about the line of sight, of which the cosine and sine of twice the angle are given
Turned(e, cos2, sin2) == <<Sub(Mul(e[1], cos2), Mul(e[2], sin2)), Add(Mul(e[1], sin2), Mul(e[2], cos2))>>
\* ---- profile plots: values of the profiles of the members, by radius of the common grid
\* p[h][r]: value of halo h at its radius number r, which is d[h][r]; missing values are left out
SampleAt(p, d, r200, grid, members, k) ==
  FlattenSeq([m \in 1..Len(members) |->
    LET h == members[m] hit == SelectSeq([r \in 1..Len(grid) |-> r], LAMBDA r : IF IsNaN(p[h][r]) THEN FALSE ELSE Nearest(grid, Div(d[h][r], r200[h])) = k)
    IN  [j \in 1..Len(hit) |-> p[h][hit[j]]]])
Mid(z) == Median(z)
Low(z) == IF z = <<>> THEN NaN ELSE Sub(Median(z), QuartileOverRootN(z, 1))
High(z) == IF z = <<>> THEN NaN ELSE Add(Median(z), QuartileOverRootN(z, 3))
\* ---- who is in which mass bin: numbers 1..n by mass, cut into runs
ByMass(m) == SortSeq([k \in 1..Len(m) |-> k], LAMBDA a, b : Lt(m[a], m[b]))
MassGroups(m, nb) == LET s == ByMass(m) IN Blocks(s, Chunk(Len(m), nb))
\* ---- names: <<stem, number or none, suffix and snapshot>>
ShapeNames(m, nb, suffix, snap) ==
  LET groups == MassGroups(m, nb) IN
  FlattenSeq([k \in 1..3 |-> << [stem |-> <<"q", "s", "T">>[k], num |-> <<>>, tail |-> suffix \o snap] >>])
  \o FlattenSeq([k \in 1..3 |-> [g \in 1..Len(groups) |-> [stem |-> <<"qM", "sM", "TM">>[k], num |-> <<m[groups[g][1]]>>, tail |-> suffix \o snap]]])
DensNames(m, nb, snap) ==
  LET groups == MassGroups(m, nb) IN
  << [stem |-> "RhoProf_", num |-> <<>>, tail |-> snap] >> \o [g \in 1..Len(groups) |-> [stem |-> "RhoProfM", num |-> <<m[groups[g][1]]>>, tail |-> "_" \o snap]]
\* the number in a name is the decimal logarithm of the mass with two decimals
Log10(x) == Div(Log(x), Log(FromInt(10)))
NameOk(have, want) == /\ have.stem = want.stem /\ have.tail = want.tail /\ Len(have.num) = Len(want.num)
                      /\ (want.num # <<>> => Near(have.num[1], Log10(want.num[1]), Num("0.00501")))
===============================================================================
