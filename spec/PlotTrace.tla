------------------------------- MODULE PlotTrace -------------------------------
(* A session of plotting calls: what was drawn and which files appeared.
   Case: [calls]; a call is
     [kind, suffix, snap, before, after : names of all files, figs : Seq([name, shown])]  and, per kind,
     "shapes"  grid, d, q, s, r200, m, nb;      shown = [x, mid, lo, hi]
     "thist"   local, grid, q, s, frac, edges;   shown = [bars : Seq(<<left, width, height>>)]
     "ehist"   local, len, halos : Seq([x, m, kind, rad]), edges
     "eps"     cos2, sin2, len, halos (as for "ehist"); got : Seq(<<e1, e2>>); no figures
     "dens"    rr, rho, rrfit, fit : Seq(curve) expected per figure, m, nb;   shown = [x, mid, lo, hi, xfit, yfit]
     "viz"     local, len, halos : Seq([n, x, m, kind, d, q, s, major, inter, minor]);
               shown = [pts, centre, surfaces : Seq(points), arrows : Seq(<<from, to>>)]
   names of files are records [stem, num, tail] (see Plots).                                          *)
EXTENDS Plots, Periodic, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, n, bad
Init == i \in 1..Len(Cases) /\ n = 1 /\ bad = <<>>
Clause(ok, name) == IF ok THEN <<>> ELSE <<name>>
Tol == Num("1e-8")
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : IF IsNaN(b[k]) THEN IsNaN(a[k]) ELSE NearRel(a[k], b[k], Tol)
AllHalos(c) == [h \in 1..Len(c.m) |-> h]
\* ---- the samples behind a curve
CurveOk(c, fig, p, members) ==
  LET z == [k \in 1..Len(c.grid) |-> SampleAt(p, c.d, c.r200, c.grid, members, k)] IN
  \E zs \in {z} :
     /\ Same(fig.shown.x, c.grid)
     /\ Same(fig.shown.mid, [k \in 1..Len(zs) |-> Mid(zs[k])])
     /\ Same(fig.shown.lo, [k \in 1..Len(zs) |-> Low(zs[k])]) /\ Same(fig.shown.hi, [k \in 1..Len(zs) |-> High(zs[k])])
TOf(c) == [h \in 1..Len(c.q) |-> [r \in 1..Len(c.q[h]) |-> Triaxiality(c.q[h][r], c.s[h][r])]]
ShapesOk(c) ==
  LET groups == MassGroups(c.m, c.nb) ng == Len(groups) IN
  IF Len(c.figs) # 3 + 3*ng THEN <<"number-of-plots">>
  ELSE FlattenSeq([k \in 1..3 |->
         LET p == CASE k = 1 -> c.q [] k = 2 -> c.s [] OTHER -> TOf(c) IN
         Clause(CurveOk(c, c.figs[k], p, AllHalos(c)), <<"q-curve", "s-curve", "T-curve">>[k])
         \o FlattenSeq([g \in 1..ng |-> Clause(CurveOk(c, c.figs[3 + (k - 1)*ng + g], p, groups[g]), <<"q-bin-curve", "s-bin-curve", "T-bin-curve">>[k])])])
BarsOk(bars, vs, nedges) ==
  /\ Len(bars) = nedges - 1
  /\ \A b \in 1..Len(bars) : Near(bars[b][1], Edge(nedges, b), Tol) /\ Near(bars[b][2], Frac(1, nedges - 1), Tol)
  /\ IF Counted(vs) = 0 THEN \A b \in 1..Len(bars) : IsNaN(bars[b][3]) \/ Eq(bars[b][3], Zero)
     ELSE \A b \in 1..Len(bars) : Near(bars[b][3], Height(vs, nedges, b), Tol)
Verdict(vs, c, name) == IF \E k \in 1..Len(vs) : IF IsNaN(vs[k]) THEN FALSE ELSE OnEdge(vs[k], c.edges) THEN <<>>
                        ELSE IF Len(c.figs) # 1 THEN <<"number-of-plots">> ELSE Clause(BarsOk(c.figs[1].shown.bars, vs, c.edges), name)
Real(vs) == SelectSeq(vs, LAMBDA v : ~IsNaN(v))
\* the values at the radius nearest to the depth asked for; halos without a shape there have none
THistVerdict(c) ==
  IF c.local /\ ~NoTie(c.grid, c.frac) THEN <<>>
  ELSE LET at == IF c.local THEN Nearest(c.grid, c.frac) ELSE 1
       IN  Verdict(Real([h \in 1..Len(c.q) |-> Triaxiality(c.q[h][at], c.s[h][at])]), c, "triaxiality-histogram")
\* halo: particles x in the box, masses m, kind of centre, the radius within which particles count
\* (<<>>: all); the centre is that of the particles that count
Dist2(a, b) == Add(Sq(Sub(a[1], b[1])), Add(Sq(Sub(a[2], b[2])), Sq(Sub(a[3], b[3]))))
Clear == Num("1e-9")
\* [eps, margin]: a small margin means that rounding decides
EpsOf(h, L) ==
  LET u == Unwrap(h.x, L) c0 == TLCEval(Centre(h.kind, h.m, u, Extent(u)))
      w == IF h.rad = <<>> THEN [k \in 1..Len(u) |-> k] ELSE SelectSeq([k \in 1..Len(u) |-> k], LAMBDA k : Le(Dist2(u[k], c0.c), Sq(h.rad[1])))
      x == [k \in 1..Len(w) |-> u[w[k]]] m == [k \in 1..Len(w) |-> h.m[w[k]]]
      mg == IF h.rad = <<>> THEN c0.margin ELSE Min2(c0.margin, MinSeq([k \in 1..Len(u) |-> Abs(Sub(Div(Dist2(u[k], c0.c), Sq(h.rad[1])), One))]))
  IN  IF w = <<>> THEN [eps |-> NaN, margin |-> mg]
      ELSE IF Len(w) = 1 THEN [eps |-> NaN, margin |-> Zero]      \* 0/0: undefined, or whatever rounding makes of it
      ELSE LET x1 == TLCEval(Unwrap(x, L)) c1 == TLCEval(Centre(h.kind, m, x1, Extent(x1))) IN [eps |-> Ellipticity(x1, m, c1.c), margin |-> Min2(mg, c1.margin)]
EHistVerdict(c) ==
  LET v == TLCEval([h \in 1..Len(c.halos) |-> EpsOf(c.halos[h], c.len)]) IN
  IF \E h \in 1..Len(v) : Lt(v[h].margin, Clear) THEN <<>>
  ELSE Verdict(Real([h \in 1..Len(v) |-> v[h].eps]), c, "ellipticity-histogram")
\* the ellipticities themselves, in a frame turned by half the angle with this cosine and sine
EpsVerdict(c) ==
  IF Len(c.got) # Len(c.halos) THEN <<"number-of-ellipticities">>
  ELSE Clause(\A h \in 1..Len(c.halos) : \E o \in {c.halos[h]} : \E u \in {TLCEval(Unwrap(o.x, c.len))} : \E c0 \in {TLCEval(Centre(o.kind, o.m, u, Extent(u)))} :
                \/ Lt(c0.margin, Clear)
                \/ \E e \in {Turned(Spin2(u, o.m, c0.c), c.cos2, c.sin2)} : Near(c.got[h][1], e[1], Tol) /\ Near(c.got[h][2], e[2], Tol), "ellipticities")
\* ---- density profiles: columns are the samples
Column(rho, members, k) == [j \in 1..Len(members) |-> rho[members[j]][k]]
AnyNaN(z) == \E j \in 1..Len(z) : IsNaN(z[j])
DensCurveOk(c, fig, members) ==
  /\ Same(fig.shown.x, c.rr)
  /\ \A k \in 1..Len(c.rr) : LET z == Column(c.rho, members, k) IN
       IF AnyNaN(z) THEN TRUE      \* the statement speaks of converged values only
       ELSE /\ NearRel(fig.shown.mid[k], Mid(z), Num("1e-6")) /\ Near(fig.shown.lo[k], Low(z), Mul(Mid(z), Num("1e-6")))
            /\ NearRel(fig.shown.hi[k], High(z), Num("1e-6"))
FitCurveOk(c, fig, want) == want = <<>> \/ (Same(fig.shown.xfit, c.rrfit) /\ \A k \in 1..Len(want) : NearRel(fig.shown.yfit[k], want[k], Num("0.02")))
DensOk(c) ==
  LET groups == MassGroups(c.m, c.nb) ng == Len(groups) IN
  IF Len(c.figs) # 1 + ng THEN <<"number-of-plots">>
  ELSE FlattenSeq([g \in 1..(ng + 1) |-> Clause(DensCurveOk(c, c.figs[g], IF g = 1 THEN AllHalos(c) ELSE groups[g - 1]), IF g = 1 THEN "density-curve" ELSE "density-bin-curve")
                                         \o Clause(FitCurveOk(c, c.figs[g], c.fit[g]), IF g = 1 THEN "fitted-curve" ELSE "fitted-bin-curve")])
\* ---- pictures of halos
Minus(a, b) == [k \in 1..3 |-> Sub(a[k], b[k])]
OnEllipsoid(p, h, r, c) ==
  LET y == Minus(p, c)
  IN  Near(Add(Sq(Div(Dot(y, h.major[r]), h.d[r])), Add(Sq(Div(Dot(y, h.inter[r]), Mul(h.d[r], h.q[r]))), Sq(Div(Dot(y, h.minor[r]), Mul(h.d[r], h.s[r]))))), One, Num("1e-6"))
Surface(pts, h, r, c) == \A k \in 1..Len(pts) : OnEllipsoid(pts[k], h, r, c)
Converged(h) == {r \in 1..Len(h.d) : ~IsNaN(h.q[r])}
SameAt(a, b, tol) == \A e \in 1..3 : Near(a[e], b[e], tol)
\* an arrow from the centre along v (its ends in either order)
Arrow(w, v, d) == LET tip == [e \in 1..3 |-> Add(w.centre[e], v[e])] tol == Mul(d, Num("1e-6")) IN
                  \E k \in 1..Len(w.arrows) : \E o \in 1..2 : SameAt(w.arrows[k][o], w.centre, tol) /\ SameAt(w.arrows[k][3 - o], tip, tol)
\* a and b are images of the same point in the box of side len
Image(a, b, len) == LET f == Div(Sub(a, b), len) IN Near(f, FromInt(Floor(Add(f, Frac(1, 2)))), Num("1e-7"))
\* the particles drawn are the halo's, each once (all of them unless they are too many to display), next to the centre;
\* w.pick[j] names the particle that point j is
TooMany == 5000
ShownOk(h, w, len) ==
  LET all == Len(h.x) some == Len(w.pts) IN
  /\ IF all > TooMany THEN some > 0 /\ some <= all ELSE some = all
  /\ Len(w.pick) = some /\ Cardinality({w.pick[j] : j \in 1..some}) = some
  /\ \A j \in 1..some : \A a \in 1..3 : /\ Image(w.pts[j][a], h.x[w.pick[j]][a], len)
                                     /\ Lt(Abs(Sub(w.pts[j][a], w.centre[a])), Mul(len, Frac(1, 2)))
VizOk(c) ==
  IF Len(c.figs) # Len(c.halos) THEN <<"number-of-plots">>
  ELSE FlattenSeq([k \in 1..Len(c.halos) |-> LET h == c.halos[k] w == c.figs[k].shown last == Len(h.d) IN
         Clause(ShownOk(h, w, c.len), "particles")
         \o (LET u == TLCEval(Unwrap(h.x, c.len)) o == TLCEval(Centre(h.kind, h.m, u, Extent(u))) IN
             Clause(Lt(o.margin, Clear) \/ \A a \in 1..3 : Image(w.centre[a], o.c[a], c.len), "centre"))
         \o Clause(last \in Converged(h) => \E t \in 1..Len(w.surfaces) : Surface(w.surfaces[t], h, last, w.centre), "ellipsoid")
         \o Clause(last \in Converged(h) => LET d == h.d[last] IN
                     /\ Arrow(w, [e \in 1..3 |-> Mul(d, h.major[last][e])], d) /\ Arrow(w, [e \in 1..3 |-> Mul(Mul(d, h.q[last]), h.inter[last][e])], d)
                     /\ Arrow(w, [e \in 1..3 |-> Mul(Mul(d, h.s[last]), h.minor[last][e])], d), "axes")])
\* ---- what is drawn lies inside the axes: figs carry window, the limits along each axis
Within(w, v) == Le(w[1], v) /\ Le(v, w[2])
PointIn(w, p) == \A a \in 1..Len(w) : Within(w[a], p[a])
InView(c, f) ==
  CASE c.kind \in {"shapes", "dens"} -> \A k \in 1..Len(f.shown.x) : IF IsNaN(f.shown.mid[k]) THEN TRUE
                                           ELSE IF c.kind = "dens" /\ Le(f.shown.mid[k], Zero) THEN TRUE ELSE PointIn(f.window, <<f.shown.x[k], f.shown.mid[k]>>)
    [] c.kind \in {"thist", "ehist"} -> \A k \in 1..Len(f.shown.bars) : LET b == f.shown.bars[k] IN
                                           IF IsNaN(b[3]) THEN TRUE ELSE Le(b[3], Zero) \/ (/\ Le(Sub(f.window[1][1], Tol), b[1]) /\ Le(Add(b[1], b[2]), Add(f.window[1][2], Tol))
                                                                                        /\ Le(f.window[2][1], Zero) /\ Le(b[3], f.window[2][2]))
    [] OTHER -> \A k \in 1..Len(f.shown.pts) : PointIn(f.window, f.shown.pts[k])
\* ---- what labels and legends state: units in force, range of masses of a bin, semi-axes (two or three digits)
RangeOk(f, m, group, next) == \A k \in 1..Len(f.says.ranges) : /\ NearRel(f.says.ranges[k][1], m[group[1]], Num("0.006"))
                                                               /\ NearRel(f.says.ranges[k][2], m[IF next = <<>> THEN group[Len(group)] ELSE next[1]], Num("0.006"))
BinRangesOk(c, first) == LET g == MassGroups(c.m, c.nb) ng == Len(g) IN       \* figures first+1.. show the bins, several times over
  \A k \in (first + 1)..Len(c.figs) : LET b == 1 + ((k - first - 1) % ng) IN RangeOk(c.figs[k], c.m, g[b], IF b = ng THEN <<>> ELSE g[b + 1])
AxesSaid(f, h) == LET last == Len(h.d) a == <<h.d[last], Mul(h.d[last], h.q[last]), Mul(h.d[last], h.s[last])>> IN
  last \in Converged(h) => \E k \in 1..Len(f.says.axes) : \A e \in 1..3 : Near(f.says.axes[k][e], a[e], Num("0.00501"))
\* a length is the same along each axis of a picture
Width(w) == Sub(w[2], w[1])
SameScale(w) == \A a \in 1..Len(w) : NearRel(Width(w[a]), Width(w[1]), Num("1e-6"))
SaysOk(c) ==
  CASE c.kind = "shapes" -> BinRangesOk(c, 3)
    [] c.kind = "dens" -> BinRangesOk(c, 1) /\ \A k \in 1..Len(c.figs) : c.figs[k].says.units = <<c.units[2], c.units[1]>>
    [] c.kind = "viz" -> \A k \in 1..Len(c.figs) : SameScale(c.figs[k].window) /\ c.figs[k].says.units = <<c.units[1], c.units[1], c.units[1]>> /\ AxesSaid(c.figs[k], c.halos[k])
    [] OTHER -> TRUE
\* ---- names and directory
WantedNames(c) ==
  CASE c.kind = "shapes" -> ShapeNames(c.m, c.nb, c.suffix, c.snap)
    [] c.kind = "dens" -> DensNames(c.m, c.nb, c.snap)
    [] c.kind = "thist" -> << [stem |-> IF c.local THEN "LocalTCount" ELSE "GlobalTCount", num |-> <<>>, tail |-> c.suffix \o c.snap] >>
    [] c.kind = "ehist" -> << [stem |-> "EpsCount", num |-> <<>>, tail |-> c.suffix \o c.snap] >>
    [] OTHER -> [k \in 1..Len(c.halos) |-> [stem |-> (IF c.local THEN "LocalObj" ELSE "GlobalObj") \o ToString(c.halos[k].n), num |-> <<>>, tail |-> c.suffix \o c.snap]]
NamesOk(c) == LET w == WantedNames(c) IN Len(c.figs) = Len(w) /\ \A k \in 1..Len(w) : NameOk(c.figs[k].name, w[k])
\* what is new in the directory is what was drawn; nothing goes away
DirOk(c) == LET drawn == {c.figs[k].file : k \in 1..Len(c.figs)} before == {c.before[k] : k \in 1..Len(c.before)} after == {c.after[k] : k \in 1..Len(c.after)}
            IN  after = before \cup drawn
CallOk(c) == IF c.kind = "eps" THEN EpsVerdict(c) ELSE
             (CASE c.kind = "shapes" -> ShapesOk(c) [] c.kind = "thist" -> THistVerdict(c) [] c.kind = "ehist" -> EHistVerdict(c)
                [] c.kind = "dens" -> DensOk(c) [] OTHER -> VizOk(c))
             \o Clause(\A k \in 1..Len(c.figs) : InView(c, c.figs[k]), "in-view") \o Clause(NamesOk(c), "names")
             \o Clause(NamesOk(c) => SaysOk(c), "labels") \o Clause(DirOk(c), "directory")
Step == /\ n <= Len(Cases[i].calls)
        /\ \E c \in {Cases[i].calls[n]} : \E v \in {CallOk(c)} : bad' = bad \o [k \in 1..Len(v) |-> c.kind \o ":" \o v[k]]
        /\ n' = n + 1 /\ i' = i
RECURSIVE JoinAll(_)
JoinAll(s) == IF s = <<>> THEN "" ELSE s[1] \o " " \o JoinAll(SubSeq(s, 2, Len(s)))
Done == /\ n = Len(Cases[i].calls) + 1 /\ PrintT("R|" \o ToString(i) \o "|" \o IF bad = <<>> THEN "OK" ELSE JoinAll(bad))
        /\ n' = n + 1 /\ UNCHANGED <<i, bad>>
Spec == Init /\ [][Step \/ Done]_<<i, n, bad>>
===============================================================================
