---------------------------- MODULE CentreTrace ----------------------------
(* Recorded masses and centres: the shrinking sphere, one action per shrink.
   Job: [halo, rad0 (0: the extent of the halo), mass, centre, tol].                           *)
EXTENDS Periodic, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Jobs == Data.jobs
Halos == Data.halos
VARIABLES i, L, m, x, rad, c, mg, pc
vars == <<i, L, m, x, rad, c, mg, pc>>
Init == \E n \in 1..Len(Jobs) :
          LET h == Halos[Jobs[n].halo]
              xs == TLCEval(Unwrap(h.x, h.L)) IN
          /\ i = n /\ L = h.L /\ m = h.m /\ x = xs
          /\ rad = IF Eq(Jobs[n].rad0, Zero) THEN Extent(xs) ELSE Jobs[n].rad0
          /\ c = TLCEval(WMean(h.m, xs)) /\ mg = One
          /\ pc = IF h.kind = "com" THEN "end" ELSE "look"
\* recentre on the particles inside, then shrink; with fewer than MinLeft inside the last centre stands
Look == /\ pc = "look"
        /\ \E d \in {TLCEval([k \in 1..Len(x) |-> Norm(VSub(x[k], c))])} :
           \E in \in {TLCEval(SelectSeq([k \in 1..Len(x) |-> k], LAMBDA k : Lt(d[k], rad)))} :
             /\ mg' = Min2(mg, MinSeq(TLCEval([k \in 1..Len(x) |-> Abs(Sub(Div(d[k], rad), One))])))
             /\ IF Len(in) < MinLeft THEN pc' = "end" /\ UNCHANGED <<m, x, c, rad>>
                ELSE \E m2 \in {TLCEval([j \in 1..Len(in) |-> m[in[j]]])} :
                     \E x2 \in {TLCEval([j \in 1..Len(in) |-> x[in[j]]])} :
                       m' = m2 /\ x' = x2 /\ c' = TLCEval(WMean(m2, x2)) /\ rad' = Mul(rad, Shrink) /\ pc' = "look"
        /\ UNCHANGED <<i, L>>
CoordOK(a, b) == Le(Abs(Sub(a, b)), Jobs[i].tol)
\* positions are compared modulo the box
Same(a, b) == CoordOK(a, b) \/ (Gt(L, Zero) /\ (CoordOK(Add(a, L), b) \/ CoordOK(Sub(a, L), b)))
InBox(a) == Eq(L, Zero) \/ (Ge(a, RNeg(Jobs[i].tol)) /\ Le(a, Add(L, Jobs[i].tol)))
Fails == LET j == Jobs[i]
             M == SumSeq(Halos[j.halo].m)
             w == Wrap(c, L)
         IN (IF ~NearRel(M, j.mass, Num("1e-6")) THEN "mass " ELSE "")
            \o (IF \A k \in 1..3 : InBox(j.centre[k]) THEN "" ELSE "outside-box ")
            \o (IF \A k \in 1..3 : Same(w[k], j.centre[k]) THEN "" ELSE "centre ")
End == /\ pc = "end"
       /\ PrintT("R|" \o ToString(i) \o "|" \o (IF Fails = "" THEN "OK" ELSE IF Lt(mg, Num("1e-9")) /\ Fails = "centre " THEN "AMBIGUOUS" ELSE Fails))
       /\ pc' = "done" /\ UNCHANGED <<i, L, m, x, rad, c, mg>>
Next == Look \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
