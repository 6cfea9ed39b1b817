---------------------------- MODULE RequestsGen ----------------------------
(* Makes the requests of module Requests, and checks the notion of well-formedness on them. *)
EXTENDS Requests, Json
CONSTANT Ns
VARIABLES fn, n, printed
Init == fn \in Fns /\ n \in Ns /\ printed = FALSE
Say == /\ \A r \in Good(fn, n) \cup Bad(fn, n) : PrintT("Q|" \o ToJson(r))
       /\ printed' = TRUE /\ UNCHANGED <<fn, n>>
Next == ~printed /\ Say
Spec == Init /\ [][Next]_<<fn, n, printed>>

Varieties == \A r \in Good(fn, n) : WellFormed(r)
Faults == \A r \in Bad(fn, n) : ~WellFormed(r)
\* the order of a selection does not matter, and what is asked of several halos can be asked of some
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Orderless == fn \in Fns \ (UnitFns \cup {"new"}) =>
               \A r \in Good(fn, n) \cup Bad(fn, n) : WellFormed(r) = WellFormed([r EXCEPT !.sel = Rev(r.sel)])
Fewer == fn \in Fns \ (UnitFns \cup {"new"}) => \A r \in Good(fn, n) : Len(r.sel) > 1 => WellFormed(WithSel(r, Tail(r.sel)))
\* repairing the one fault makes a faulty request good
Repairs == \A r \in Bad(fn, n) : \E f \in {"sel", "katz", "method", "rows", "nr", "names", "kind", "rad", "files"} :
              LET b == Base(fn, n) IN IF f = "sel" THEN WellFormed(WithSel(r, b.sel)) ELSE WellFormed([r EXCEPT ![f] = b[f]])
=============================================================================
