-------------------------------- MODULE Groups --------------------------------
(* Friends-of-friends catalogues in several files.  A file lists groups (particles per type, number
   of subhalos, two radii) and subhalos (particles per type); over all files the subhalos stand in the
   order of their groups, and so do the particles of every type in the snapshot.  The first subhalo of
   a group is its central one, and its particles are the first particles of the group.

   file   = [groups : Seq of group, subs : Seq of (1..6 -> Nat)]
   group  = [len : 1..6 -> Nat, nsubs : Nat, rvir, rmean : number]
   Type t is one of 1..6.  Halos are found by walking over the files once (Step), and described
   without a walk by Retained / FirstParticle.                                                     *)
EXTENDS Integers, Sequences, SequencesExt, TLC
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
Concat(files, pick(_)) == FlattenSeq([k \in 1..Len(files) |-> pick(files[k])])
AllGroups(files) == Concat(files, LAMBDA f : f.groups)
AllSubs(files) == Concat(files, LAMBDA f : f.subs)
Consistent(files) == /\ SumTo(LAMBDA k : AllGroups(files)[k].nsubs, Len(AllGroups(files))) = Len(AllSubs(files))
\* ---- what is meant
SubsBefore(files, k) == SumTo(LAMBDA j : AllGroups(files)[j].nsubs, k - 1)
FirstParticle(files, t, k) == SumTo(LAMBDA j : AllGroups(files)[j].len[t], k - 1)
CentralSize(files, t, k) == AllSubs(files)[SubsBefore(files, k) + 1][t]
Retained(files, t, min) == {k \in 1..Len(AllGroups(files)) : AllGroups(files)[k].nsubs > 0 /\ CentralSize(files, t, k) >= min}
RadiusOf(g, def) == IF def = "Rvir" THEN g.rvir ELSE g.rmean
\* ---- how it is found: one pass over the groups with two running offsets
Walk0 == [at |-> 1, sub |-> 0, part |-> 0, halos |-> <<>>]
WalkStep(groups, subs, t, def, min, w) ==
  LET g == groups[w.at]
      central == subs[w.sub + 1][t]
      keep == IF g.nsubs > 0 THEN central >= min ELSE FALSE
  IN  [at |-> w.at + 1, sub |-> w.sub + g.nsubs, part |-> w.part + g.len[t],
       halos |-> IF keep THEN Append(w.halos, [group |-> w.at, start |-> w.part, size |-> central, r |-> RadiusOf(g, def)]) ELSE w.halos]
RECURSIVE WalkAll(_, _, _, _, _, _)
WalkAll(groups, subs, t, def, min, w) ==
  IF w.at > Len(groups) THEN w.halos ELSE WalkAll(groups, subs, t, def, min, WalkStep(groups, subs, t, def, min, w))
Halos(files, t, def, min) == WalkAll(AllGroups(files), AllSubs(files), t, def, min, Walk0)
\* the index catalogue: particle numbers (from 0) of one halo after the other
IndexCat(halos) == FlattenSeq([h \in 1..Len(halos) |-> [j \in 1..halos[h].size |-> halos[h].start + j - 1]])
Sizes(halos) == [h \in 1..Len(halos) |-> halos[h].size]
===============================================================================
