----------------------------- MODULE GroupsTrace ------------------------------
(* What the readers and the Gadget class make of group files of known content.
   Case: [files, reads]; a read is
     [what = "lists", t, def, unit, got : [nsubs, subs, sizes, radii]]       the raw catalogue
     [what = "halos", t, def, min, unit, got : [idx, radii, sizes]]          calcObjCat
     [what = "cat", t, def, min, got : [idx, sizes]]                         getIdxCat
     [what = "radii", t, def, min, unit, out, got : Seq(R)]                  getR200
     [what = "masses", t, def, min, unit, out, mass : per particle of the type, got]    getMassesCenters
     [what = "info", t, def, min, got : the numbers printed]                 getObjInfoGadget
     [what = "error", got : "" or the name of the error]
   unit: unit system of the input, out: of the output; radii of "lists" and "halos" are internal. *)
EXTENDS Groups, Units, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, n, bad
Init == i \in 1..Len(Cases) /\ n = 1 /\ bad = ""
Clause(ok, name) == IF ok THEN "" ELSE name \o " "
Near6(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : NearRel(a[k], b[k], Num("3e-7"))
Internal(unit, x) == Div(x, Factor(unit, 1, 0, 0))
RECURSIVE SumOver(_, _, _)
SumOver(m, a, len) == IF len = 0 THEN Zero ELSE Add(m[a + len], SumOver(m, a, len - 1))
GroupsWithSubs(files) == Len(SelectSeq(AllGroups(files), LAMBDA g : g.nsubs > 0))
ReadOk(files, r) ==
  LET groups == AllGroups(files) subs == AllSubs(files) IN
  IF r.what = "error" THEN Clause(r.got # "", "accepted-" \o r.case)
  ELSE IF r.what = "lists" THEN
         Clause(r.got.nsubs = [k \in 1..Len(groups) |-> groups[k].nsubs], "subhalo-counts")
      \o Clause(r.got.sizes = [k \in 1..Len(groups) |-> groups[k].len[r.t]], "group-sizes")
      \o Clause(r.got.subs = [k \in 1..Len(subs) |-> subs[k][r.t]], "subhalo-sizes")
      \o Clause(Near6(r.got.radii, [k \in 1..Len(groups) |-> Internal(r.unit, RadiusOf(groups[k], r.def))]), "group-radii")
  ELSE LET hs == Halos(files, r.t, r.def, r.min) IN
       CASE r.what = "halos" ->
              Clause(r.got.idx = IndexCat(hs), "halo-particles") \o Clause(r.got.sizes = Sizes(hs), "halo-sizes")
              \o Clause(Near6(r.got.radii, [h \in 1..Len(hs) |-> Internal(r.unit, hs[h].r)]), "halo-radii")
         [] r.what = "cat" -> Clause(r.got.idx = IndexCat(hs), "cat-particles") \o Clause(r.got.sizes = Sizes(hs), "cat-sizes")
         [] r.what = "radii" -> Clause(Near6(r.got, [h \in 1..Len(hs) |-> Mul(Internal(r.unit, hs[h].r), Factor(r.out, 1, 0, 0))]), "class-radii")
         [] r.what = "masses" -> Clause(Near6(r.got, [h \in 1..Len(hs) |-> Mul(SumOver(r.mass, hs[h].start, hs[h].size), Div(Factor(r.out, 0, 1, 0), Factor(r.unit, 0, 1, 0)))]), "class-masses")
         [] r.what = "info" -> Clause(r.got = [halos |-> Len(hs), withsubs |-> GroupsWithSubs(files), groups |-> Len(groups), subs |-> Len(subs),
                                              nosubs |-> Len(groups) - GroupsWithSubs(files), resolved |-> Len(hs)], "printed-numbers")
         [] OTHER -> "unknown "
Step == /\ n <= Len(Cases[i].reads)
        /\ \E c \in {Cases[i]} : \E v \in {ReadOk(c.files, c.reads[n])} : bad' = bad \o v
        /\ n' = n + 1 /\ i' = i
Done == /\ n = Len(Cases[i].reads) + 1 /\ PrintT("R|" \o ToString(i) \o "|" \o IF bad = "" THEN "OK" ELSE bad)
        /\ n' = n + 1 /\ UNCHANGED <<i, bad>>
Spec == Init /\ [][Step \/ Done]_<<i, n, bad>>
===============================================================================
