----------------------------- MODULE KatzTrace -----------------------------
(* Every recorded shape is replayed through the machine of module Katz, one step per action.
   Data: [halos |-> particle data, jobs |-> sequence of [halo, d, delta, ..., obs]].  One behaviour
   per job; the verdict is printed when the job ends.                                *)
EXTENDS Katz, Json, IOUtils

Data  == JsonDeserialize(IOEnv.CASES)
Halos == Data.halos
Cases == Data.jobs

VARIABLES i, J, S

Build(c) ==
  LET h  == Halos[c.halo]
      xs == Unwrap(h.x, h.L)
      ce == TLCEval(Centre(h.kind, h.m, xs, Extent(xs)))
  IN [x |-> xs, m |-> h.m, c |-> ce.c, cm |-> ce.margin,
      vel |-> c.vel, v |-> IF c.vel THEN h.v ELSE <<>>, vc |-> IF c.vel THEN TLCEval(WMean(h.m, h.v)) ELSE <<Zero, Zero, Zero>>,
      d |-> c.d, delta |-> c.delta, shell |-> c.shell, reduced |-> c.reduced,
      tol |-> c.tol, wall |-> c.wall, min |-> c.min]

Init == \E k \in 1..Len(Cases) :
          /\ i = k
          /\ J = TLCEval(Build(Cases[k]))
          /\ S = IF Cases[k].void THEN [pc |-> "missing", und |-> FALSE]     \* no extent or no radius
                 ELSE LET s0 == Sphere(J) IN [s0 EXCEPT !.und = s0.und \/ Lt(J.cm, Num("1e-9"))]

RECURSIVE Join(_)
Join(set) == IF set = {} THEN "" ELSE LET w == CHOOSE w \in set : TRUE IN w \o " " \o Join(set \ {w})

\* A job may carry reports for the same halo turned, scaled, moved, relabelled (`more`).
Verdict(k, st) ==
  LET c    == Cases[k]
      wf   == WellFormed(c.obs) \union UNION {WellFormed(c.more[n].obs) : n \in 1..Len(c.more)}
      same == Clauses(J, st, c.obs, c.tolq)
      sym  == UNION {{c.more[n].how \o ":" \o w : w \in Clauses(ScaleJob(c.more[n].f, J), TurnState(c.more[n].Q, st), c.more[n].obs, c.tolq)} :
                     n \in 1..Len(c.more)}
      f == wf \union same \union sym
  IN IF st.und THEN (IF wf = {} THEN "AMBIGUOUS" ELSE Join(wf)) ELSE IF f = {} THEN "OK" ELSE Join(f)

Next ==
  \/ /\ S.pc = "run"
     /\ S' = TLCEval(Advance(J, S))
     /\ UNCHANGED <<i, J>>
  \/ /\ S.pc \in {"converged", "missing"}
     /\ PrintT("R|" \o ToString(i) \o "|" \o Verdict(i, S))
     /\ PrintT("P|" \o ToString(i) \o "|" \o S.pc \o (IF Cases[i].void THEN "" ELSE "|" \o ToString(S.it)))
     /\ S' = [S EXCEPT !.pc = "judged"]
     /\ UNCHANGED <<i, J>>
Spec == Init /\ [][Next]_<<i, J, S>>

\* the machine itself never runs on
Bounded == S.pc = "run" => S.it <= J.wall + 2
Sane == (S.pc = "converged" /\ ~S.und) => (Le(S.s, S.q) /\ Le(S.q, One) /\ Gt(S.s, Zero))
=============================================================================
