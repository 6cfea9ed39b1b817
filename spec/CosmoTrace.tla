------------------------------ MODULE CosmoTrace ------------------------------
(* Recorded values of the helpers.
   Case: [what, v : value, args : reals] or [what = "text", before, after : code points].      *)
EXTENDS Cosmo, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Holds(c) == CASE c.what = "rhocrit" -> NearRel(c.v, RhoCrit, Num("1e-9"))
              [] c.what = "mass"    -> NearRel(c.v, MassDMParticle(c.args[1], c.args[2]), Num("1e-9"))
              [] c.what = "delta"   -> NearRel(c.v, Delta(c.args[1], c.args[2], c.args[3]), Num("1e-9"))
              [] OTHER -> ReadSci(c.before) # Bad /\ ReadPretty(c.after) = ReadSci(c.before)
Judge == /\ ~done /\ done' = TRUE /\ i' = i
         /\ PrintT("R|" \o ToString(i) \o "|" \o IF Holds(Cases[i]) THEN "OK" ELSE Cases[i].what)
Spec == Init /\ [][Judge]_<<i, done>>
===============================================================================
