------------------------------ MODULE MpiGroups -------------------------------
(* A group catalogue read by several processes.  The files are dealt to the processes in runs; every
   process reads its files one by one, in any interleaving with the others; the root learns how much
   everybody has, puts the parts together at the matching displacements, and hands the whole out again
   in pieces.  At the end every process has what one process reading all files has, and nobody waits
   for ever.  File f contributes Count[f] entries <<f, 1>>, <<f, 2>>, ...                           *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS MaxRanks, MaxFiles, MaxCount, PieceLimits
VARIABLES size, count, limit,        \* processes; entries per file; largest broadcast piece
          pc, next, have,            \* per process: where it is, next file, entries read
          known,                     \* at the root: number of entries per process
          whole,                     \* at the root: the gathered list
          piece, got                 \* per process: pieces received, the result
vars == <<size, count, limit, pc, next, have, known, whole, piece, got>>
Ranks == 0..(size - 1)
NFiles == Len(count)
Entries(f) == [e \in 1..count[f] |-> <<f, e>>]
Everything == FlattenSeq([f \in 1..NFiles |-> Entries(f)])
\* ---- dealing
PerRank == IF NFiles \div size = 0 THEN 1 ELSE NFiles \div size
Active(r) == r <= NFiles - 1
LastActive == IF size <= NFiles THEN size - 1 ELSE NFiles - 1
FirstFile(r) == r * PerRank + 1
LastFile(r) == IF ~Active(r) THEN FirstFile(r) - 1 ELSE IF r = LastActive THEN NFiles ELSE (r + 1) * PerRank
\* ---- pieces
Pieces == LET n == Len(Everything) IN IF n >= limit THEN 1 + (n \div limit) ELSE 1
Chunk == Len(Everything) \div Pieces
PieceOf(s, p) == SubSeq(s, p * Chunk + 1, IF p = Pieces - 1 THEN Len(s) ELSE (p + 1) * Chunk)
Init == /\ size \in 1..MaxRanks /\ (\E m \in 1..MaxFiles : count \in [1..m -> 0..MaxCount]) /\ limit \in PieceLimits
        /\ pc = [r \in Ranks |-> "read"] /\ next = [r \in Ranks |-> FirstFile(r)] /\ have = [r \in Ranks |-> <<>>]
        /\ known = <<>> /\ whole = <<>> /\ piece = [r \in Ranks |-> 0] /\ got = [r \in Ranks |-> <<>>]
Read(r) == /\ pc[r] = "read" /\ next[r] <= LastFile(r)
           /\ have' = [have EXCEPT ![r] = @ \o Entries(next[r])] /\ next' = [next EXCEPT ![r] = @ + 1]
           /\ UNCHANGED <<size, count, limit, pc, known, whole, piece, got>>
Finished(r) == /\ pc[r] = "read" /\ next[r] > LastFile(r) /\ pc' = [pc EXCEPT ![r] = "gather"]
               /\ UNCHANGED <<size, count, limit, next, have, known, whole, piece, got>>
\* collective: everybody has arrived; the root's buffer is filled at the displacements of the counts
Displ(k) == IF k = 0 THEN 0 ELSE LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE known[j] + S(j - 1) IN S(k)
Counts == /\ known = <<>> /\ \A r \in Ranks : pc[r] = "gather" /\ known' = [j \in 1..size |-> Len(have[j - 1])]
          /\ UNCHANGED <<size, count, limit, pc, next, have, whole, piece, got>>
Total == Displ(size)
Gather == /\ known # <<>> /\ \A r \in Ranks : pc[r] = "gather"
          /\ whole' = [e \in 1..Total |-> LET r == CHOOSE q \in Ranks : Displ(q) < e /\ e <= Displ(q + 1) IN have[r][e - Displ(r)]]
          /\ pc' = [r \in Ranks |-> "bcast"] /\ UNCHANGED <<size, count, limit, next, have, known, piece, got>>
\* a piece reaches a process when root has sent it; the root is never behind
Receive(r) == /\ pc[r] = "bcast" /\ piece[r] < Pieces /\ (r # 0 => piece[0] > piece[r])
              /\ got' = [got EXCEPT ![r] = @ \o PieceOf(whole, piece[r])] /\ piece' = [piece EXCEPT ![r] = @ + 1]
              /\ UNCHANGED <<size, count, limit, pc, next, have, known, whole>>
End(r) == pc[r] = "bcast" /\ piece[r] = Pieces /\ pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED <<size, count, limit, next, have, known, whole, piece, got>>
Finish == (\A r \in Ranks : pc[r] = "done") /\ UNCHANGED vars
Next == (\E r \in Ranks : Read(r) \/ Finished(r) \/ Receive(r) \/ End(r)) \/ Counts \/ Gather \/ Finish
Spec == Init /\ [][Next]_vars
\* every file is read by one process, in order
Dealt == \A r \in Ranks : FirstFile(r) <= LastFile(r) + 1
         /\ \A f \in 1..NFiles : \E q \in Ranks : FirstFile(q) <= f /\ f <= LastFile(q) /\ \A p \in Ranks \ {q} : ~(FirstFile(p) <= f /\ f <= LastFile(p))
Complete == \A r \in Ranks : pc[r] = "done" => got[r] = Everything
\* nobody waits for ever
CanGo == ENABLED Next
Partial == \A r \in Ranks : got[r] = SubSeq(Everything, 1, Len(got[r]))
===============================================================================
