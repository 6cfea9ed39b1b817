----------------------------- MODULE ProfTrace -----------------------------
(* Recorded density profiles, judged shell by shell (one action per shell).
   Job: [halo, kind ("sph"|"ell"|"ker"), rr, shape, gap, rho (reported), tol, floor].           *)
EXTENDS Profiles, Json, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Jobs == Data.jobs
Halos == Data.halos
VARIABLES i, H, k, bad, und, mass
Build(j) == LET h == Halos[j.halo]
                xs == Unwrap(h.x, h.L)
                ce == TLCEval(Centre(h.kind, h.m, xs, FromInt(1000)))
            IN [x |-> xs, m |-> h.m, c |-> ce.c, cm |-> ce.margin, r200 |-> j.r200]
Init == \E n \in 1..Len(Jobs) : /\ i = n /\ H = TLCEval(Build(Jobs[n])) /\ k = 1 /\ bad = "" /\ mass = Zero
                                /\ und = Lt(H.cm, Num("1e-9"))
Shell(j) == CASE j.kind = "sph" -> SphShell(H, j.rr, k)
              [] j.kind = "ell" -> EllShell(H, j.rr, k, j.shape, j.gap)
              [] j.kind = "ker" -> KernelDens(H, j.rr, k)
Judge == /\ k <= Len(Jobs[i].rr)
         /\ LET j == Jobs[i]
                e == TLCEval(Shell(j))
                ok == Le(Abs(Sub(e.rho, j.rho[k])), Add(Mul(j.tol, Max2(Abs(e.rho), Abs(j.rho[k]))), j.floor)) \/ (IsNaN(e.rho) /\ IsNaN(j.rho[k]))
            IN /\ bad' = IF ok \/ e.und THEN bad ELSE bad \o " shell" \o ToString(k)
               /\ und' = (und \/ (e.und /\ ~ok))
               /\ mass' = IF j.kind = "sph" THEN Add(mass, e.mass) ELSE mass
               /\ PrintT("S|" \o ToString(i) \o "|" \o ToString(k) \o "|" \o (IF e.und THEN "?" ELSE IF e.n = 0 THEN "empty" ELSE "filled"))
         /\ k' = k + 1 /\ UNCHANGED <<i, H>>
Done == /\ k = Len(Jobs[i].rr) + 1
        /\ PrintT("R|" \o ToString(i) \o "|" \o (IF bad # "" /\ ~Lt(H.cm, Num("1e-9")) THEN bad ELSE IF und THEN "AMBIGUOUS" ELSE "OK"))
        /\ k' = k + 1 /\ UNCHANGED <<i, H, bad, und, mass>>
Next == Judge \/ Done
Spec == Init /\ [][Next]_<<i, H, k, bad, und, mass>>
\* every particle inside the last radius is in exactly one shell: shell masses add up to the enclosed mass
Enclosed == LET e == Mul(Jobs[i].rr[Len(Jobs[i].rr)], H.r200)
                in == SelectSeq([n \in 1..Len(H.x) |-> n], LAMBDA n : Lt(Dist(H, n), e))
            IN SumSeq([j \in 1..Len(in) |-> H.m[in[j]]])
Conserved == (k = Len(Jobs[i].rr) + 2 /\ Jobs[i].kind = "sph") => Near(mass, Enclosed, Num("1e-9"))
=============================================================================
