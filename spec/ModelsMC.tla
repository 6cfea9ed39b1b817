------------------------------- MODULE ModelsMC -------------------------------
(* The laws that the published formulae obey, checked on a grid of parameters and radii. *)
EXTENDS Models, TLC
CONSTANT Fine
Half == Frac(1, 2)
As == {Frac(n, 10) : n \in IF Fine THEN {1, 2, 5, 10, 15, 30} ELSE {2, 10, 15}}
Bs == {FromInt(n) : n \in 2..5}
Gs == {Frac(n, 4) : n \in IF Fine THEN 0..6 ELSE {0, 4, 6}}
Xs == {Pow(Two, FromInt(n)) : n \in -12..12}
VARIABLES p, x
Init == /\ x \in Xs
        /\ \E a \in As, b \in Bs, g \in Gs : p = [rho_s |-> FromInt(7), r_s |-> Frac(3, 2), alpha |-> a, beta |-> b, gamma |-> g]
Next == UNCHANGED <<p, x>>
T == Num("1e-12")
At(m, r, q) == Rho(m, r, q)
r0 == Mul(x, p.r_s)
Slope(m, r, q) == Div(Log(Div(At(m, Mul(r, Num("1.0001")), q), At(m, Div(r, Num("1.0001")), q))), Mul(Two, Log(Num("1.0001"))))
\* values at the scale radius
AtScale == /\ NearRel(At("einasto", p.r_s, p), p.rho_s, T)
           /\ NearRel(At("nfw", p.r_s, p), Div(p.rho_s, Four), T)
           /\ NearRel(At("hernquist", p.r_s, p), Div(p.rho_s, FromInt(8)), T)
           /\ NearRel(At("alpha_beta_gamma", p.r_s, p), Div(p.rho_s, Pow(Two, Div(Sub(p.beta, p.gamma), p.alpha))), T)
Special == /\ NearRel(At("nfw", r0, p), At("alpha_beta_gamma", r0, [p EXCEPT !.alpha = One, !.beta = Three, !.gamma = One]), T)
           /\ NearRel(At("hernquist", r0, p), At("alpha_beta_gamma", r0, [p EXCEPT !.alpha = One, !.beta = Four, !.gamma = One]), T)
Scales == \A m \in Profiles4 : /\ NearRel(At(m, r0, [p EXCEPT !.rho_s = Mul(Three, @)]), Mul(Three, At(m, r0, p)), T)
                               /\ NearRel(At(m, Mul(Four, r0), [p EXCEPT !.r_s = Mul(Four, @)]), At(m, r0, p), T)
Falls == \A m \in Profiles4 : Gt(p.gamma, Zero) => Le(At(m, Mul(Num("1.01"), r0), p), At(m, r0, p))
\* logarithmic slopes: -2 (r/r_s)^alpha for Einasto; -gamma inside and -beta outside for the others
Slopes == /\ (Gt(x, Num("0.01")) /\ Lt(x, FromInt(8))) => Near(Slope("einasto", r0, p), Mul(RNeg(Two), Pow(x, p.alpha)), Num("1e-2"))
          /\ (Lt(x, Num("0.0005")) /\ Ge(p.alpha, One)) => Near(Slope("alpha_beta_gamma", r0, p), RNeg(p.gamma), Num("1e-2"))
          /\ (Gt(x, FromInt(2000)) /\ Ge(p.alpha, One)) => Near(Slope("alpha_beta_gamma", r0, p), RNeg(p.beta), Num("1e-2"))
Spec == Init /\ [][Next]_<<p, x>>
===============================================================================
