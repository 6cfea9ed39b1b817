------------------------------ MODULE KatzMC ------------------------------
(* The Katz machine itself, explored exhaustively over small symmetric clouds: every choice of N
   generator points out of Points, reflected into the eight octants, for every variant and every
   axis permutation.  Checks that the machine always ends within its limit, that its outcome is
   well-formed, and that permuting the coordinate axes permutes the outcome (equivariance).     *)
EXTENDS Katz
CONSTANTS N, Walls, Tols
Points == {<<4,1,1>>, <<3,2,1>>, <<1,2,1>>, <<2,1,2>>, <<5,1,2>>, <<2,3,1>>, <<1,1,1>>, <<3,1,2>>, <<6,2,1>>, <<1,3,2>>}
Signs  == {<<a, b, c>> : a \in {1, -1}, b \in {1, -1}, c \in {1, -1}}
Perms  == {<<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<2,1,3>>, <<1,3,2>>, <<3,2,1>>}
RECURSIVE ToSeq(_)
ToSeq(s) == IF s = {} THEN <<>> ELSE LET e == CHOOSE e \in s : TRUE IN <<e>> \o ToSeq(s \ {e})
Cloud(g, p) == ToSeq({LET q == <<t[1]*r[1], t[2]*r[2], t[3]*r[3]>> IN <<q[p[1]], q[p[2]], q[p[3]]>> : t \in g, r \in Signs})
Real3(q) == <<FromInt(q[1]), FromInt(q[2]), FromInt(q[3])>>
Job(g, p, sh, red, wall, tol, d) ==
  LET c == Cloud(g, p) IN
  [x |-> [k \in 1..Len(c) |-> Real3(c[k])], m |-> [k \in 1..Len(c) |-> One], vel |-> FALSE, v |-> <<>>,
   c |-> <<Zero, Zero, Zero>>, vc |-> <<Zero, Zero, Zero>>, d |-> d, delta |-> IF sh THEN Num("1.37") ELSE d,
   shell |-> sh, reduced |-> red, tol |-> Num(tol), wall |-> wall, min |-> 5]
VARIABLES J, S, J2, S2, perm
Init == \E g \in {h \in SUBSET Points : Cardinality(h) = N}, sh \in BOOLEAN, red \in BOOLEAN, wall \in Walls, tol \in Tols,
           d \in {"3.513", "5.417"} : \E p \in Perms :
          /\ perm = p
          /\ J = TLCEval(Job(g, <<1,2,3>>, sh, red, wall, tol, Num(d)))
          /\ J2 = TLCEval(Job(g, p, sh, red, wall, tol, Num(d)))
          /\ S = Sphere(J) /\ S2 = Sphere(J2)
Next == /\ S.pc = "run" \/ S2.pc = "run"
        /\ S' = IF S.pc = "run" THEN TLCEval(Advance(J, S)) ELSE S
        /\ S2' = IF S2.pc = "run" THEN TLCEval(Advance(J2, S2)) ELSE S2
        /\ UNCHANGED <<J, J2, perm>>
Spec == Init /\ [][Next]_<<J, S, J2, S2, perm>>
Limit == S.it <= J.wall + 2
Ended == S.pc # "run" /\ S2.pc # "run"
Q == [k \in 1..3 |-> [c \in 1..3 |-> IF c = perm[k] THEN One ELSE Zero]]
Report(s) == IF s.pc = "missing" THEN [conv |-> FALSE, d |-> NaN, q |-> NaN, s |-> NaN, major |-> <<NaN>>, inter |-> <<NaN>>, minor |-> <<NaN>>]
             ELSE [conv |-> TRUE, d |-> J.d, q |-> s.q, s |-> s.s, major |-> s.ax[1], inter |-> s.ax[2], minor |-> s.ax[3]]
Equivariant == (Ended /\ ~S.und /\ ~S2.und) => Clauses(J, TurnState(Q, S), Report(S2), "1e-9") = {}
Formed == (Ended /\ ~S.und) => WellFormed(Report(S)) = {}
\* a converged selection is a fixed point up to the tolerance: one more step keeps the ratios close
=============================================================================
