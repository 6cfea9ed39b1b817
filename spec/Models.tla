-------------------------------- MODULE Models --------------------------------
(* The four density models.  A parameter set is a record [rho_s, r_s, alpha, beta, gamma]; a model
   looks only at its own parameters.                                                            *)
EXTENDS R, Sequences, FiniteSets
Profiles4 == {"einasto", "alpha_beta_gamma", "nfw", "hernquist"}
Pars(m) == CASE m = "einasto" -> <<"rho_s", "alpha", "r_s">>
             [] m = "alpha_beta_gamma" -> <<"rho_s", "alpha", "beta", "gamma", "r_s">>
             [] OTHER -> <<"rho_s", "r_s">>
Four == FromInt(4)
Three == FromInt(3)
ABG(x, a, b, g) == Div(One, Mul(Pow(x, g), Pow(Add(One, Pow(x, a)), Div(Sub(b, g), a))))
\* density over characteristic density as a function of x = r/r_s
Shape(m, x, p) ==
  CASE m = "einasto" -> Exp(Mul(Div(RNeg(Two), p.alpha), Sub(Pow(x, p.alpha), One)))
    [] m = "alpha_beta_gamma" -> ABG(x, p.alpha, p.beta, p.gamma)
    [] m = "nfw" -> Div(One, Mul(x, Sq(Add(One, x))))
    [] m = "hernquist" -> Div(One, Mul(x, Pow(Add(One, x), Three)))
Rho(m, r, p) == Mul(p.rho_s, Shape(m, Div(r, p.r_s), p))
===============================================================================
