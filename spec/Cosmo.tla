-------------------------------- MODULE Cosmo --------------------------------
(* The cosmology helpers: critical density, particle mass, virial overdensity, and the reading of
   numbers in scientific notation before ("2.88E-19") and after ("2.88 x 10^-19" with Unicode
   superscripts) formatting.  Texts are sequences of Unicode code points.                       *)
EXTENDS R, SequencesExt, FiniteSets

Pi == Num("3.141592653589793")
\* critical density in solar masses h^2 / Mpc^3 from H = 100 h km/s/Mpc
G    == Div(Num("6.674e-29"), Pow(Num("3.086e16"), FromInt(3)))   \* Mpc^3 / kg / s^2
H    == Div(FromInt(100), Num("3.086e19"))                         \* 1/s
MSun == Num("2e30")                                                \* kg
RhoCrit == Div(Div(Mul(FromInt(3), Sq(H)), Mul(Mul(FromInt(8), Pi), G)), MSun)
\* N^3 particles of equal mass fill the box of side L at the critical density
MassDMParticle(N, L) == Div(Mul(RhoCrit, Pow(L, FromInt(3))), Pow(N, FromInt(3)))
\* Bryan & Norman 1998, relative to the mean background
OmegaM(z, om, ol) == LET m == Mul(om, Pow(Add(One, z), FromInt(3))) IN Div(m, Add(m, ol))
Delta(z, om, ol) == LET w == OmegaM(z, om, ol)
                        x == Sub(w, One)
                        c == Sub(Add(Mul(FromInt(18), Sq(Pi)), Mul(FromInt(82), x)), Mul(FromInt(39), Sq(x)))
                    IN  Sub(Div(c, w), One)

\* ---- numbers as texts: <<hundredths of the mantissa, exponent>>
IsDigit(c) == c \in 48..57
Bad == << >>
Minus == 45
Super(d) == CASE d = 0 -> 8304 [] d = 1 -> 185 [] d = 2 -> 178 [] d = 3 -> 179 [] OTHER -> 8304 + d
SuperDigits == {Super(d) : d \in 0..9}
Digit(c) == CHOOSE d \in 0..9 : Super(d) = c
Blanks == {32, 10240}
Times == 10005
\* d.dd with an optional sign
Mantissa(s) ==
  LET neg == Len(s) > 0 /\ s[1] = Minus
      t   == IF neg THEN Tail(s) ELSE s
  IN  IF Len(t) = 4 /\ IsDigit(t[1]) /\ t[2] = 46 /\ IsDigit(t[3]) /\ IsDigit(t[4])
      THEN LET v == 100*(t[1]-48) + 10*(t[3]-48) + (t[4]-48) IN <<IF neg THEN 0 - v ELSE v>>
      ELSE Bad
\* the input: mantissa, e or E, sign, two digits
ReadSci(s) ==
  LET at == SelectInSeq(s, LAMBDA c : c \in {69, 101})
  IN  IF at = 0 \/ Len(s) # at + 3 THEN Bad
      ELSE LET m == Mantissa(SubSeq(s, 1, at-1))
               e == 10*(s[at+2]-48) + (s[at+3]-48)
           IN  IF m = Bad THEN Bad ELSE <<m[1], IF s[at+1] = Minus THEN 0 - e ELSE e>>
RECURSIVE SuperValue(_, _)
SuperValue(s, acc) == IF s = <<>> THEN acc ELSE SuperValue(Tail(s), 10*acc + Digit(s[1]))
\* "10" with a superscript exponent
ReadPower(s) ==
  LET neg == Len(s) > 2 /\ s[3] = 8315
      t   == IF Len(s) > 2 THEN SubSeq(s, IF neg THEN 4 ELSE 3, Len(s)) ELSE <<>>
  IN  IF Len(s) > 2 /\ s[1] = 49 /\ s[2] = 48 /\ t # <<>> /\ \A k \in 1..Len(t) : t[k] \in SuperDigits
      THEN <<IF neg THEN 0 - SuperValue(t, 0) ELSE SuperValue(t, 0)>>
      ELSE Bad
ReadPretty(u) ==
  LET s  == SelectSeq(u, LAMBDA c : c \notin Blanks)
      at == SelectInSeq(s, LAMBDA c : c = Times)
      m  == IF at = 0 THEN Mantissa(s) ELSE Mantissa(SubSeq(s, 1, at-1))
      p  == IF at = 0 THEN ReadPower(s) ELSE ReadPower(SubSeq(s, at+1, Len(s)))
  IN  IF at = 0 THEN IF m # Bad THEN <<m[1], 0>> ELSE IF p # Bad THEN <<100, p[1]>> ELSE Bad
      ELSE IF m = Bad \/ p = Bad THEN Bad ELSE <<m[1], p[1]>>

\* renderings of the number <<v, e>>
AbsInt(n) == IF n < 0 THEN 0 - n ELSE n
WriteMantissa(v) == (IF v < 0 THEN <<Minus>> ELSE <<>>) \o <<48 + (AbsInt(v) \div 100), 46, 48 + ((AbsInt(v) \div 10) % 10), 48 + (AbsInt(v) % 10)>>
WriteSci(v, e, letter) == WriteMantissa(v) \o <<letter, IF e < 0 THEN Minus ELSE 43, 48 + (AbsInt(e) \div 10), 48 + (AbsInt(e) % 10)>>
WriteSuper(e) == (IF e < 0 THEN <<8315>> ELSE <<>>) \o (IF AbsInt(e) < 10 THEN <<Super(AbsInt(e))>> ELSE <<Super(AbsInt(e) \div 10), Super(AbsInt(e) % 10)>>)
WritePretty(v, e) == IF e = 0 THEN WriteMantissa(v)
                     ELSE IF v = 100 THEN <<49, 48>> \o WriteSuper(e)
                     ELSE WriteMantissa(v) \o <<10240, Times, 10240, 49, 48>> \o WriteSuper(e)
==============================================================================
