---------------------------- MODULE SnapshotTrace ----------------------------
(* What the readers return for a snapshot whose content is known.
   Case: [h, files, reads], a read being
     [what = "header", got]
     [what = "field", field, types, unit, out (records of unit names), raw, got]
     [what = "error", got : "" or the name of the error]                                       *)
EXTENDS Snapshot, Units, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, n, bad
Init == i \in 1..Len(Cases) /\ n = 1 /\ bad = ""
Clause(ok, name) == IF ok THEN "" ELSE name \o " "
Scalars == {"time", "redshift", "box", "omegam", "omegal", "hubble"}
HeaderOk(h, files, g) ==
  Clause(\A f \in Scalars : NearRel(g[f], h[f], Num("1e-14")), "header-values")
  \o Clause(g.table = h.table, "mass-table")
  \o Clause(g.npart = files[g.part].npart, "counts-of-this-file") \o Clause(g.nall = h.nall, "total-counts")
  \o Clause(g.files = h.files, "number-of-files") \o Clause(g.cooling = h.cooling, "flags")
  \o Clause(g.format = h.format, "format")
  \o Clause(g.rate = <<>> \/ NearRel(g.rate[1], HubbleRate(h), Num("1e-12")), "hubble-rate")
Tol(r) == IF r.raw THEN Num("1e-14") ELSE Num("1e-6")
SameReals(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : NearRel(a[k], b[k], tol)
SameVectors(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameReals(a[k], b[k], tol)
FieldOk(h, files, r) ==
  LET per(l, m, v) == IF r.raw THEN One ELSE Div(Factor(r.out, l, m, v), Factor(r.unit, l, m, v))
  IN CASE r.field = "ids" -> r.got = OfTypes(files, "ids", r.types)
       [] r.field = "pos" -> SameVectors(r.got, ScaleAll(OfTypes(files, "pos", r.types), per(1, 0, 0)), Tol(r))
       [] r.field = "vel" -> SameVectors(r.got, ScaleAll(OfTypes(files, "vel", r.types), Mul(VelFactor(h), per(0, 0, 1))), Tol(r))
       [] r.field = "mass" -> SameReals(r.got, Scale(MassesOf(files, h.table, r.types), per(0, 1, 0)), Tol(r))
       [] OTHER -> LET want == MoreOf(files, r.field, r.types)
                   IN CASE EntryOf(r.field) = "vector" -> SameVectors(r.got, want, Tol(r))
                        [] EntryOf(r.field) = "integer" -> r.got = want
                        [] OTHER -> SameReals(r.got, want, Tol(r))
ReadOk(c, r) == CASE r.what = "header" -> HeaderOk(c.h, c.files, r.got)
                  [] r.what = "field" -> Clause(FieldOk(c.h, c.files, r), r.via \o "-" \o r.field)
                  [] OTHER -> Clause(r.got # "", "invented-" \o r.field)
Step == /\ n <= Len(Cases[i].reads)
        /\ \E c \in {Cases[i]} : \E v \in {ReadOk(c, c.reads[n])} : bad' = bad \o v
        /\ n' = n + 1 /\ i' = i
Done == /\ n = Len(Cases[i].reads) + 1 /\ PrintT("R|" \o ToString(i) \o "|" \o IF bad = "" THEN "OK" ELSE bad)
        /\ n' = n + 1 /\ UNCHANGED <<i, bad>>
Spec == Init /\ [][Step \/ Done]_<<i, n, bad>>
==============================================================================
