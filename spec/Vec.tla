-------------------------------- MODULE Vec --------------------------------
(* Small vector, matrix and eigen-system operators over the reals of module R. *)
EXTENDS R, TLC, FiniteSets

V3(x, y, z)  == <<x, y, z>>
VAdd(a, b)   == <<Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3])>>
VSub(a, b)   == <<Sub(a[1], b[1]), Sub(a[2], b[2]), Sub(a[3], b[3])>>
VScale(k, a) == <<Mul(k, a[1]), Mul(k, a[2]), Mul(k, a[3])>>
Norm2(a)     == Dot(a, a)
Norm(a)      == Sqrt(Norm2(a))
Unit(a)      == LET n == Norm(a) IN <<Div(a[1], n), Div(a[2], n), Div(a[3], n)>>

Map(Op(_), s) == TLCEval([k \in 1..Len(s) |-> Op(s[k])])
SumOver(n, Op(_)) == SumSeq(TLCEval([k \in 1..n |-> Op(k)]))
\* the subsequence of 1..n on which P holds
RECURSIVE Pick(_, _, _)
Pick(n, P(_), k) == IF k > n THEN <<>> ELSE IF P(k) THEN <<k>> \o Pick(n, P, k + 1) ELSE Pick(n, P, k + 1)
Where(n, P(_)) == SelectSeq([k \in 1..n |-> k], P)

MaxSeq(s) == LET RECURSIVE M(_, _)
                 M(k, m) == IF k > Len(s) THEN m ELSE M(k + 1, Max2(m, s[k]))
             IN M(2, s[1])
MinSeq(s) == LET RECURSIVE M(_, _)
                 M(k, m) == IF k > Len(s) THEN m ELSE M(k + 1, Min2(m, s[k]))
             IN M(2, s[1])

\* mass-weighted mean position
WMean(m, x) == LET M == SumSeq(m)
               IN [c \in 1..3 |-> Div(Dot(m, [k \in 1..Len(x) |-> x[k][c]]), M)]

---------------------------------------------------------------------------
(* Eigen-system of a symmetric 3x3 matrix by cyclic Jacobi rotations.
   State: [a |-> matrix (rows), v |-> columns of eigenvectors as rows v[k]].                *)
Id3 == <<<<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>>>>

Rotate(st, p, q) ==
  LET a == st.a  v == st.v
      apq == a[p][q]
  IN IF Eq(apq, Zero) THEN st ELSE
     LET theta == Div(Sub(a[q][q], a[p][p]), Mul(Two, apq))
         sgn   == IF Lt(theta, Zero) THEN RNeg(One) ELSE One
         t     == Div(sgn, Add(Abs(theta), Sqrt(Add(One, Sq(theta)))))
         c     == Div(One, Sqrt(Add(One, Sq(t))))
         s     == Mul(t, c)
         r     == 6 - p - q
         arp   == Sub(Mul(c, a[r][p]), Mul(s, a[r][q]))
         arq   == Add(Mul(s, a[r][p]), Mul(c, a[r][q]))
         app   == Sub(a[p][p], Mul(t, apq))
         aqq   == Add(a[q][q], Mul(t, apq))
         A(i, j) == IF i = p /\ j = p THEN app
                    ELSE IF i = q /\ j = q THEN aqq
                    ELSE IF {i, j} = {p, q} THEN Zero
                    ELSE IF {i, j} = {r, p} THEN arp
                    ELSE IF {i, j} = {r, q} THEN arq
                    ELSE a[r][r]
         vp == TLCEval([k \in 1..3 |-> Sub(Mul(c, v[p][k]), Mul(s, v[q][k]))])
         vq == TLCEval([k \in 1..3 |-> Add(Mul(s, v[p][k]), Mul(c, v[q][k]))])
     IN [a |-> TLCEval(<<<<A(1,1), A(1,2), A(1,3)>>, <<A(2,1), A(2,2), A(2,3)>>, <<A(3,1), A(3,2), A(3,3)>>>>),
         v |-> TLCEval([k \in 1..3 |-> IF k = p THEN vp ELSE IF k = q THEN vq ELSE v[k]])]

RECURSIVE Sweeps(_, _)
Sweeps(st, n) ==
  IF n = 0 \/ (Eq(st.a[1][2], Zero) /\ Eq(st.a[1][3], Zero) /\ Eq(st.a[2][3], Zero)) THEN st
  ELSE Sweeps(TLCEval(Rotate(TLCEval(Rotate(TLCEval(Rotate(st, 1, 2)), 1, 3)), 2, 3)), n - 1)

\* eigenvalues in descending order with their unit eigenvectors
Eigen(a) ==
  LET st == TLCEval(Sweeps([a |-> a, v |-> Id3], 14))
      w  == <<st.a[1][1], st.a[2][2], st.a[3][3]>>
      o  == CHOOSE p \in {<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>} :
              Ge(w[p[1]], w[p[2]]) /\ Ge(w[p[2]], w[p[3]])
  IN [val |-> <<w[o[1]], w[o[2]], w[o[3]]>>,
      vec |-> <<Unit(st.v[o[1]]), Unit(st.v[o[2]]), Unit(st.v[o[3]])>>]
=============================================================================
