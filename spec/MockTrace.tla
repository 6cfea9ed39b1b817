------------------------------ MODULE MockTrace ------------------------------
(* A generated halo followed through the generator: thinning steps, then one step per shell.
   Case: [model, p, tot, res, axes : sequence of <<a, b, c>>, failed, x, again, mass, rho, keptpars] *)
EXTENDS MockHalo, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, axes, n1, k, seen, bad, thin
vars == <<i, axes, n1, k, seen, bad, thin>>
C == Cases[i]
A(xs) == [j \in 1..Len(xs) |-> xs[j][1]]
Frc(c, xs) == Div(ShellMass(c.model, A(xs), c.p, 2), Total(c.model, A(xs), c.p))
First(c, xs) == Counts(Mul(c.res, Frc(c, xs)))
Say(v) == PrintT("R|" \o ToString(i) \o "|" \o v)
Init == i \in 1..Len(Cases) /\ axes = Cases[i].axes /\ n1 = -1 /\ k = 0 /\ seen = 0 /\ bad = "" /\ thin = 0
Ambiguous == /\ n1 = -1 /\ \E c \in {C}, xs \in {axes} : \E f \in {First(c, xs)} : Cardinality(f) > 1 /\ Say("AMBIGUOUS")
             /\ n1' = -2 /\ UNCHANGED <<i, axes, k, seen, bad, thin>>
ThinOut == /\ n1 = -1 /\ (\E c \in {C}, xs \in {axes} : First(c, xs) = {0}) /\ Len(axes) > 2
           /\ axes' = Thin(axes) /\ thin' = thin + 1 /\ UNCHANGED <<i, n1, k, seen, bad>>
\* not even the coarsest shells hold a particle: the generator must refuse
Refuse == /\ n1 = -1 /\ (\E c \in {C}, xs \in {axes} : First(c, xs) = {0}) /\ Len(axes) <= 2
          /\ Say(IF C.failed = "ValueError" THEN "OK" ELSE "resolution-too-low-not-refused")
          /\ n1' = -2 /\ UNCHANGED <<i, axes, k, seen, bad, thin>>
S(x, q) == Add(Add(Sq(Div(x[1], q[1])), Sq(Div(x[2], q[2]))), Sq(Div(x[3], q[3])))
Eps == Num("1e-9")
Clause(ok, name) == IF ok THEN "" ELSE name \o " "
Begin == /\ n1 = -1 /\ \E c \in {C}, xs \in {axes} : \E f \in {First(c, xs)} :
              /\ Cardinality(f) = 1 /\ f # {0}
              /\ IF C.failed # "" THEN Say("refused (" \o C.failed \o ")") /\ n1' = -2 /\ k' = 0 /\ bad' = bad
                 ELSE /\ n1' = CHOOSE v \in f : TRUE
                      /\ k' = 1
                      /\ \E tot \in {Total(c.model, A(xs), c.p)} :
                           bad' = Clause(NearRel(C.rho, Div(C.tot, tot), Precision), "characteristic-density")
                                  \o Clause(NearRel(Mul(C.mass, FromInt(Len(C.x))), C.tot, Precision), "particle-mass")
                                  \o Clause(C.x = C.again, "repeatable")
                                  \o Clause(C.keptpars, "parameters")
                                  \o Clause(\A j \in 1..Len(C.x) : Le(S(C.x[j], axes[Len(axes)]), Add(One, Eps)), "outside-the-last")
         /\ UNCHANGED <<i, axes, seen, thin>>
In(x, xs, q) == Le(S(x, xs[q]), One) /\ (q > 1 => Lt(One, S(x, xs[q-1])))
Held(c, xs, q) == Cardinality({j \in 1..Len(c.x) : In(c.x[j], xs, q)})
Want(c, xs, n, q) == Counts(Mul(FromInt(n), Div(ShellMass(c.model, A(xs), c.p, q), ShellMass(c.model, A(xs), c.p, 2))))
Shell == /\ k \in 1..Len(axes)
         /\ \E c \in {C}, xs \in {axes}, q \in {k}, n \in {n1} : \E got \in {Held(c, xs, q)}, want \in {Want(c, xs, n, q)} :
              /\ bad' = bad \o Clause(got \in want, "shell" \o ToString(k) \o "-holds-" \o ToString(got))
              /\ seen' = seen + got
         /\ k' = k + 1 /\ UNCHANGED <<i, axes, n1, thin>>
Done == /\ k = Len(axes) + 1 /\ n1 > 0
        /\ LET b == bad \o Clause(seen = Len(C.x), "between-shells") IN Say(IF b = "" THEN "OK" ELSE b)
        /\ k' = k + 1 /\ UNCHANGED <<i, axes, n1, seen, bad, thin>>
Spec == Init /\ [][Ambiguous \/ ThinOut \/ Refuse \/ Begin \/ Shell \/ Done]_vars
===============================================================================
