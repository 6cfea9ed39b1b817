-------------------------------- MODULE Units --------------------------------
(* Unit systems: numbers in one system converted to another.  Internally lengths are Mpc/h,
   masses 1e10 Msun/h, velocities km/s.                                                         *)
EXTENDS R, TLC
\* the little h that "/h" stands for is the one in force
H(u) == Num(u.h)
LenCm(s, h) == CASE s = "pc" -> Num("3.085678e18") [] s = "kpc" -> Num("3.085678e21") [] s = "Mpc" -> Num("3.085678e24") [] s = "Gpc" -> Num("3.085678e27")
                 [] s = "pc/h" -> Div(Num("3.085678e18"), h) [] s = "kpc/h" -> Div(Num("3.085678e21"), h)
                 [] s = "Mpc/h" -> Div(Num("3.085678e24"), h) [] s = "Gpc/h" -> Div(Num("3.085678e27"), h)
                 [] OTHER -> Num(s)
MassG(s, h) == CASE s = "Msun" -> Num("1.989e33") [] s = "E+10Msun" -> Num("1.989e43") [] s = "Msun/h" -> Div(Num("1.989e33"), h)
                 [] s = "E+10Msun/h" -> Div(Num("1.989e43"), h) [] OTHER -> Num(s)
VelCms(s) == IF s = "km/s" THEN Num("1e5") ELSE Num(s)
IPow(x, n) == IF n = 0 THEN One ELSE Pow(x, FromInt(n))
\* the number that denotes in system u (a record of unit names and the little h) what 1 denotes in the internal system,
\* for a quantity of dimensions length^l mass^m velocity^v
Factor(u, l, m, v) == Mul(IPow(Div(LenCm("Mpc/h", H(u)), LenCm(u.len, H(u))), l),
                      Mul(IPow(Div(MassG("E+10Msun/h", H(u)), MassG(u.mass, H(u))), m), IPow(Div(Num("1e5"), VelCms(u.vel)), v)))
=============================================================================
