------------------------------- MODULE CosmoMC -------------------------------
(* Every two-decimal number with an exponent up to 19 is read back from both of its texts; the
   texts are the inputs replayed on the code.  The overdensity falls from the open to the
   Einstein-de Sitter value as matter comes to dominate.                                       *)
EXTENDS Cosmo, TLC, TLCExt
CONSTANT Sparse
Mantissas == LET pos == {m \in 0..999 : m % Sparse \in {0, 1 % Sparse}} IN pos \cup {0 - m : m \in pos}
VARIABLES v, e, letter
vars == <<v, e, letter>>
Init == v \in Mantissas /\ e \in (0-19)..19 /\ letter \in {69, 101}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
BothTexts == ReadSci(WriteSci(v, e, letter)) = <<v, e>> /\ ReadPretty(WritePretty(v, e)) = <<v, e>>
Distinct == \A f \in (0-19)..19 : f = e \/ WritePretty(v, f) # WritePretty(v, e)
EdS == NearRel(Delta(FromInt(e+20), One, Zero), Sub(Mul(FromInt(18), Sq(Pi)), One), Num("1e-12"))
Dilutes == LET a == Delta(Frac(e+19, 10), Num("0.3"), Num("0.7"))
               b == Delta(Frac(e+20, 10), Num("0.3"), Num("0.7"))
           IN  Lt(b, a) /\ Lt(Sub(Mul(FromInt(18), Sq(Pi)), One), b)
==============================================================================
