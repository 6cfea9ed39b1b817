------------------------------ MODULE Snapshot ------------------------------
(* Gadget snapshots.  A snapshot is a sequence of files; a file holds, for each of the six particle
   types (1..6 here, 0..5 on disk), its particles, in blocks of position, velocity, mass and
   identifier.  A file is the record [npart : six counts, pos, vel, mass, ids : per type sequences,
   mass empty for a type whose mass is in the header's table].                                  *)
EXTENDS R, SequencesExt, Folds, FiniteSets, TLC

Types == 1..6
Flat(s) == FlattenSeq(s)
SumN(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* what a field of the types ts (in the given order) is: all files in order, for one type after the other
Field(files, f, t) == Flat([k \in 1..Len(files) |-> files[k][f][t]])
OfTypes(files, f, ts) == Flat([j \in 1..Len(ts) |-> Field(files, f, ts[j])])
Masses(files, table, t) == IF Eq(table[t], Zero) THEN Field(files, "mass", t)
                           ELSE [k \in 1..SumN([j \in 1..Len(files) |-> files[j].npart[t]]) |-> table[t]]
MassesOf(files, table, ts) == Flat([j \in 1..Len(ts) |-> Masses(files, table, ts[j])])
\* further blocks, by their four-letter names: which types have them and what an entry is
Stored(name) == CASE name = "ACCE" -> Types [] name = "AGE " -> {5} [] name = "Z   " -> {1, 5} [] name \in {"BHMA", "BHMD"} -> {6} [] OTHER -> {1}
EntryOf(name) == CASE name \in {"ACCE", "CMCE"} -> "vector" [] name = "NFAC" -> "integer" [] OTHER -> "real"
More(files, name, t) == Flat([k \in 1..Len(files) |-> files[k].more[name][t]])
MoreOf(files, name, ts) == Flat([j \in 1..Len(ts) |-> More(files, name, ts[j])])
\* velocities on disk are peculiar velocities over sqrt(a)
VelFactor(h) == IF Eq(h.redshift, Zero) THEN One ELSE Sqrt(h.time)
Scale(v, k) == [j \in 1..Len(v) |-> Mul(v[j], k)]
ScaleAll(vs, k) == [j \in 1..Len(vs) |-> Scale(vs[j], k)]
\* Hubble rate in km/s/(Mpc/h)
HubbleRate(h) == Mul(FromInt(100), Sqrt(Add(Mul(h.omegam, Pow(Add(One, h.redshift), FromInt(3))), h.omegal)))
==============================================================================
