------------------------------ MODULE ModelTrace ------------------------------
(* Recorded values of the analytic models.
   Case: [model, p : parameters, r : radii, v : values, shape : "scalar" | "array"].           *)
EXTENDS Models, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, k, bad
Init == i \in 1..Len(Cases) /\ k = 1 /\ bad = IF Len(Cases[i].v) = Len(Cases[i].r) THEN "" ELSE "length "
C == Cases[i]
Step == /\ k <= Len(C.r) /\ k' = k + 1 /\ i' = i
        /\ bad' = IF k <= Len(C.v) /\ NearRel(Rho(C.model, C.r[k], C.p), C.v[k], Num("1e-10")) THEN bad ELSE bad \o "r" \o ToString(k) \o " "
Done == /\ k = Len(C.r) + 1 /\ PrintT("R|" \o ToString(i) \o "|" \o IF bad = "" THEN "OK" ELSE C.model \o "-" \o C.shape \o ": " \o bad)
        /\ k' = k + 1 /\ UNCHANGED <<i, bad>>
Spec == Init /\ [][Step \/ Done]_<<i, k, bad>>
===============================================================================
