-------------------------------- MODULE Relate --------------------------------
(* Two recorded answers about the same halo under different circumstances: the fields agree, and
   positions move by the given vector (modulo the box L when L > 0).
   Case: [base, obs : record of fields, shift : vector, L, how : text].  A field is
   [kind : "rel" | "abs" | "same" | "axis" | "pos", v : values, tol].                            *)
EXTENDS R, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, todo, bad
RECURSIVE MaxAbs(_, _)
MaxAbs(s, k) == IF k > Len(s) THEN Zero ELSE LET r == MaxAbs(s, k + 1) IN IF IsNaN(s[k]) THEN r ELSE Max2(Abs(s[k]), r)
Both(a, b, t) == (IsNaN(a) /\ IsNaN(b)) \/ Le(Abs(Sub(a, b)), t)
Coord(a, b, L, t) == Both(a, b, t) \/ (Gt(L, Zero) /\ (Both(Add(a, L), b, t) \/ Both(Sub(a, L), b, t)))
RECURSIVE Into(_, _)
Into(a, L) == IF Eq(L, Zero) THEN a ELSE IF Ge(a, L) THEN Into(Sub(a, L), L) ELSE IF Lt(a, Zero) THEN Into(Add(a, L), L) ELSE a
Agree(f, g, c) ==
  /\ f.kind = g.kind /\ Len(f.v) = Len(g.v)
  /\ LET n == Len(f.v)  t == f.tol  a == f.v  b == g.v IN
     CASE f.kind = "same" -> a = b
       [] f.kind = "rel" -> \A k \in 1..n : NearRel(a[k], b[k], t)
       [] f.kind = "abs" -> \E s \in {TLCEval(Mul(t, MaxAbs(a, 1)))} : \A k \in 1..n : Both(a[k], b[k], s)
       [] f.kind = "axis" -> \A m \in 0..(n \div 3) - 1 : \/ \A k \in 3*m+1..3*m+3 : Both(a[k], b[k], t)
                                                         \/ \A k \in 3*m+1..3*m+3 : Both(a[k], RNeg(b[k]), t)
       [] f.kind = "pos" -> \A k \in 1..n : /\ Coord(Into(Add(a[k], c.shift[((k - 1) % 3) + 1]), c.L), b[k], c.L, t)
                                           /\ ((IsNaN(b[k]) \/ Eq(c.L, Zero)) \/ (Ge(b[k], RNeg(t)) /\ Le(b[k], Add(c.L, t))))
       [] OTHER -> FALSE
Init == i \in 1..Len(Cases) /\ bad = "" /\ todo = IF DOMAIN Cases[i].base = DOMAIN Cases[i].obs THEN DOMAIN Cases[i].base ELSE {"fields"}
Check == /\ todo # {} /\ \E f \in {CHOOSE g \in todo : TRUE} :
              /\ todo' = todo \ {f}
              /\ bad' = IF f \in DOMAIN Cases[i].base /\ f \in DOMAIN Cases[i].obs /\ Agree(Cases[i].base[f], Cases[i].obs[f], Cases[i]) THEN bad ELSE bad \o f \o " "
         /\ i' = i
Done == /\ todo = {} /\ bad # "judged" /\ PrintT("R|" \o ToString(i) \o "|" \o IF bad = "" THEN "OK" ELSE Cases[i].how \o ":" \o bad)
        /\ bad' = "judged" /\ UNCHANGED <<i, todo>>
Spec == Init /\ [][Check \/ Done]_<<i, todo, bad>>
=============================================================================
