------------------------------- MODULE FitTrace -------------------------------
(* Recorded fits, one case per halo of a request.
   Case: [profile, fixed : record, free : names in order, r : radii, y : densities ("nan" allowed),
   truth : parameters the data were made with, rms : tolerance of the misfit, rec : tolerance with
   which the parameters are to be recovered or 0, got : record, conv : BOOLEAN,
   r200, conc : reported concentration (or NaN when not asked), asked : BOOLEAN]                *)
EXTENDS Models, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, step, good, best, bad
C == Cases[i]
\* a case with asked set is about the concentration only
Has(rec, n) == n \in DOMAIN rec
Good(c) == SelectSeq([k \in 1..Len(c.y) |-> k], LAMBDA k : ~IsNaN(c.y[k]) /\ Gt(c.y[k], Zero))
\* root mean square of the logarithmic residuals over the usable bins
Misfit(c, g, p) == Sqrt(Div(SumSeq([k \in 1..Len(g) |-> Sq(Sub(Log(c.y[g[k]]), Log(Rho(c.profile, c.r[g[k]], p))))]), FromInt(Len(g))))
Full(c, got) == [n \in {"rho_s", "r_s", "alpha", "beta", "gamma"} |-> IF Has(got, n) THEN got[n] ELSE One]
\* the truth, with the fixed parameters at their given values
Rival(c) == [n \in {"rho_s", "r_s", "alpha", "beta", "gamma"} |-> IF Has(c.fixed, n) THEN c.fixed[n] ELSE c.truth[n]]
Init == i \in 1..Len(Cases) /\ step = (IF Cases[i].asked THEN "conc" ELSE "names") /\ good = <<>> /\ best = Zero /\ bad = ""
Fail(ok, what) == IF ok THEN bad ELSE bad \o what \o " "
Names == /\ step = "names" /\ step' = "flag" /\ good' = Good(C) /\ UNCHANGED <<i, best>>
         /\ bad' = Fail(DOMAIN C.got = {Pars(C.profile)[k] : k \in DOMAIN Pars(C.profile)}, "names")
AllNaN == \A n \in DOMAIN C.got : IsNaN(C.got[n])
NoNaN == \A n \in DOMAIN C.got : ~IsNaN(C.got[n])
Flag == /\ step = "flag"
        /\ step' = IF good = <<>> \/ ~NoNaN \/ bad # "" THEN "conc" ELSE "fixed"
        /\ bad' = Fail(IF good = <<>> THEN AllNaN /\ ~C.conv ELSE NoNaN /\ C.conv, "flag")
        /\ best' = IF good # <<>> /\ NoNaN /\ bad = "" THEN Misfit(C, good, Full(C, C.got)) ELSE NaN
        /\ UNCHANGED <<i, good>>
Fixed == /\ step = "fixed" /\ step' = "rival"
         /\ bad' = Fail(\A n \in DOMAIN C.fixed \ {"none"} : NearRel(C.fixed[n], C.got[n], Num("1e-6")), "fixed")
         /\ UNCHANGED <<i, good, best>>
\* no parameter set we know of fits better: the one behind the data, and small changes of the answer
RivalStep == /\ step = "rival" /\ step' = "nudge"
         /\ bad' = Fail(Le(best, Add(Misfit(C, good, Rival(C)), C.rms)), "worse-than-truth")
         /\ UNCHANGED <<i, good, best>>
Nudges == {Num("0.8"), Num("0.95"), Num("1.05"), Num("1.25")}
Nudge == /\ step = "nudge" /\ step' = "recover"
         /\ bad' = Fail(\A k \in DOMAIN C.free : \A f \in Nudges : LET g == Full(C, C.got) IN
                          Le(best, Add(Misfit(C, good, [g EXCEPT ![C.free[k]] = Mul(f, @)]), C.rms)), "not-a-minimum")
         /\ UNCHANGED <<i, good, best>>
Recover == /\ step = "recover" /\ step' = "conc"
         /\ bad' = Fail(Eq(C.rec, Zero) \/ \A k \in DOMAIN C.free : NearRel(C.truth[C.free[k]], C.got[C.free[k]], C.rec), "recover")
         /\ UNCHANGED <<i, good, best>>
\* concentration: the halo's own radius over the fitted scale radius
Conc == /\ step = "conc" /\ step' = "done"
        /\ bad' = Fail(~C.asked \/ (IF Has(C.got, "r_s") /\ ~IsNaN(C.got.r_s) THEN NearRel(C.conc, Div(C.r200, C.got.r_s), Num("1e-5")) ELSE IsNaN(C.conc)), "concentration")
        /\ UNCHANGED <<i, good, best>>
Done == /\ step = "done" /\ step' = "over" /\ UNCHANGED <<i, good, best, bad>>
        /\ PrintT("R|" \o ToString(i) \o "|" \o IF bad = "" THEN "OK" ELSE C.profile \o ": " \o bad)
Spec == Init /\ [][Names \/ Flag \/ Fixed \/ RivalStep \/ Nudge \/ Recover \/ Conc \/ Done]_<<i, step, good, best, bad>>
===============================================================================
