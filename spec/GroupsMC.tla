------------------------------- MODULE GroupsMC -------------------------------
(* Catalogues are put together group by group and subhalo by subhalo, cut into files anywhere, and
   walked; whatever the catalogue, the walk gives what is meant by halos.                          *)
EXTENDS Groups
CONSTANTS MaxGroups, MaxFiles, MaxSubs, Lens, Mins
VARIABLES files, phase, min, w
vars == <<files, phase, min, w>>
T == 2          \* the type asked for; type 1 has other numbers
Six(a, b) == <<a, b, 0, 0, 0, 0>>
NewFile == [groups |-> <<>>, subs |-> <<>>]
Owed == SumTo(LAMBDA k : AllGroups(files)[k].nsubs, Len(AllGroups(files))) - Len(AllSubs(files))
Init == files = <<NewFile>> /\ phase = "write" /\ min \in Mins /\ w = Walk0
Now == Len(files)
\* particles of the subhalos of the group being described so far, per type
RECURSIVE TailSum(_, _, _)
TailSum(s, n, t) == IF n = 0 THEN 0 ELSE s[Len(s) - n + 1][t] + TailSum(s, n - 1, t)
PutGroup(a, b, n) == /\ phase = "write" /\ Len(AllGroups(files)) < MaxGroups /\ Owed = 0
                     /\ files' = [files EXCEPT ![Now].groups = Append(@, [len |-> Six(a, b), nsubs |-> n, rvir |-> Len(AllGroups(files)) + 1, rmean |-> 100])]
                     /\ UNCHANGED <<phase, min, w>>
LastGroup == AllGroups(files)[Len(AllGroups(files))]
PutSub(a, b) == /\ phase = "write" /\ Owed > 0
                /\ LET had == LastGroup.nsubs - Owed IN
                   /\ TailSum(AllSubs(files), had, 1) + a <= LastGroup.len[1] /\ TailSum(AllSubs(files), had, 2) + b <= LastGroup.len[2]
                /\ files' = [files EXCEPT ![Now].subs = Append(@, Six(a, b))] /\ UNCHANGED <<phase, min, w>>
\* a new file begins anywhere, also between a group and its subhalos
Cut == phase = "write" /\ Len(files) < MaxFiles /\ files' = Append(files, NewFile) /\ UNCHANGED <<phase, min, w>>
Read == phase = "write" /\ Owed = 0 /\ phase' = "walk" /\ UNCHANGED <<files, min, w>>
Walk == /\ phase = "walk" /\ w.at <= Len(AllGroups(files))
        /\ w' = WalkStep(AllGroups(files), AllSubs(files), T, "Rvir", min, w) /\ UNCHANGED <<files, phase, min>>
Next == \/ \E a, b \in Lens, n \in 0..MaxSubs : PutGroup(a, b, n)
        \/ \E a, b \in Lens : PutSub(a, b)
        \/ Cut \/ Read \/ Walk
Spec == Init /\ [][Next]_vars
Ended == phase = "walk" /\ w.at > Len(AllGroups(files))
Meant == Ended => /\ {w.halos[h].group : h \in 1..Len(w.halos)} = Retained(files, T, min)
                  /\ \A h \in 1..Len(w.halos) : LET k == w.halos[h].group IN
                       /\ w.halos[h].start = FirstParticle(files, T, k) /\ w.halos[h].size = CentralSize(files, T, k)
                       /\ w.halos[h].r = k /\ w.halos[h].size >= min
                  /\ \A h \in 1..Len(w.halos)-1 : w.halos[h].group < w.halos[h+1].group
\* halos lie in their groups and do not overlap
Apart == Ended => \A h \in 1..Len(w.halos) :
           /\ w.halos[h].start + w.halos[h].size <= FirstParticle(files, T, w.halos[h].group) + AllGroups(files)[w.halos[h].group].len[T]
           /\ h < Len(w.halos) => w.halos[h].start + w.halos[h].size <= w.halos[h+1].start
\* where the files are cut does not matter
Uncut == Ended => w.halos = Halos(<<[groups |-> AllGroups(files), subs |-> AllSubs(files)]>>, T, "Rvir", min)
===============================================================================
