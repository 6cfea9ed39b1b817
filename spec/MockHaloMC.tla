----------------------------- MODULE MockHaloMC -----------------------------
(* Thinning keeps the innermost and outermost ellipsoid, never reorders, and reaches two
   ellipsoids; the shells always carry the whole mass; the closed form of the NFW mass agrees with
   the integral.                                                                               *)
EXTENDS MockHalo
CONSTANT MaxLen
VARIABLES s, n
Init == n \in 2..MaxLen /\ s = [k \in 1..n |-> k]
Next == s' = Thin(s) /\ n' = n
Spec == Init /\ [][Next]_<<s, n>> /\ WF_<<s, n>>(Next)
Ends == s[1] = 1 /\ s[Len(s)] = n /\ \A k \in 1..(Len(s)-1) : s[k] < s[k+1]
Few == <>(s = <<1, n>>)
P == [r_s |-> FromInt(3), alpha |-> One, beta |-> FromInt(3), gamma |-> One]
Radii(q) == [k \in 1..Len(q) |-> FromInt(q[k])]
Whole == Near(Div(SumSeq([k \in 1..Len(s) |-> ShellMass("nfw", Radii(s), P, k)]), Total("nfw", Radii(s), P)), One, Num("1e-5"))
\* 4 pi rs^3 (ln(1+x) - x/(1+x))
Closed == LET x == Div(FromInt(n), P.r_s)
          IN  NearRel(Total("nfw", Radii(s), P),
                      Mul(Mul(FromInt(4), Num("3.141592653589793")), Mul(Pow(P.r_s, FromInt(3)), Sub(Log(Add(One, x)), Div(x, Add(One, x))))), Num("1e-5"))
Agree == NearRel(Total("nfw", Radii(s), P), Total("alpha_beta_gamma", Radii(s), P), Num("1e-9"))
==============================================================================
