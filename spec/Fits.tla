--------------------------------- MODULE Fits ---------------------------------
(* Requests to fit density profiles, and what an answer to one must be.  A request names a model,
   the parameters it keeps fixed, a minimiser and the kind of bins in the data; requests outside
   the admissible ones are refused.  The machine answers a request halo by halo.                *)
EXTENDS Models, TLC, Json
CONSTANTS MaxRows, Record
Minimisers == {"", "Powell", "Nelder-Mead", "L-BFGS-B", "TNC", "SLSQP", "trust-constr", "simplex"}
Bins == {"clean", "zeros", "nans", "both", "none", "noisy"}
Allowed(m) == {Pars(m)[k] : k \in DOMAIN Pars(m)} 
Names == Profiles4 \cup {"burkert"}
ParNames == {"rho_s", "r_s", "alpha", "beta", "gamma"}
VARIABLES req, rows, answer
Requests == [profile : Names, fixed : SUBSET ParNames, min : Minimisers]
\* which requests are admissible
Admissible(q) == q.profile \in Profiles4 /\ q.fixed \subseteq Allowed(q.profile) /\ q.min # "simplex"
Wrong(q) == (IF q.profile \notin Profiles4 THEN 1 ELSE 0) + (IF q.min = "simplex" THEN 1 ELSE 0)
              + (IF q.profile \in Profiles4 THEN Cardinality(q.fixed \ Allowed(q.profile)) ELSE Cardinality(q.fixed))
Init == /\ req \in Requests /\ rows = <<>> /\ answer = "open"
        \* at most one thing wrong with a request
        /\ (Wrong(req) <= 1)
Row == /\ answer = "open" /\ Len(rows) < MaxRows
       /\ \E b \in Bins : rows' = Append(rows, b) /\ UNCHANGED <<req, answer>>
\* one answer per row, in order: fitted, or flagged when the row has no usable bin
Answer == /\ answer = "open" /\ rows # <<>>
          /\ answer' = IF ~Admissible(req) THEN "refused" ELSE ToString([k \in DOMAIN rows |-> IF rows[k] = "none" THEN "flagged" ELSE "fitted"])
          /\ (Record => PrintT("H|" \o ToJson([profile |-> req.profile, fixed |-> req.fixed, min |-> req.min, rows |-> rows, ok |-> Admissible(req)])))
          /\ UNCHANGED <<req, rows>>
Spec == Init /\ [][Row \/ Answer]_<<req, rows, answer>>
FixedAreKnown == (answer \notin {"open", "refused"}) => (req.fixed \subseteq Allowed(req.profile) /\ Cardinality(Allowed(req.profile) \ req.fixed) + Cardinality(req.fixed) = Len(Pars(req.profile)))
===============================================================================
