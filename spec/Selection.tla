------------------------------ MODULE Selection ------------------------------
(* A catalogue object.  The caller supplies halos one after the other; those with at least min
   particles are retained, in the order supplied, their particles one after the other in an index
   list.  A request names retained halos by number; an invalid one is refused.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mins, Sizes, MaxHalos, MaxAsk, Record
VARIABLES min,      \* least number of particles
          sizes,    \* supplied halos: number of particles
          open,     \* still being supplied
          kept,     \* supplied numbers (from 1) of the retained halos
          index,    \* particles of the retained halos: <<halo, particle>>
          counts,   \* particles per retained halo
          ask,      \* the request, numbers from 0
          answer    \* per entry the supplied number of the halo the row is about, or <<0>>
vars == <<min, sizes, open, kept, index, counts, ask, answer>>
Particles(h, n) == [k \in 1..n |-> <<h, k>>]
Init == min \in Mins /\ sizes = <<>> /\ open = TRUE /\ kept = <<>> /\ index = <<>> /\ counts = <<>> /\ ask = <<>> /\ answer = <<>>
Supply(n) == /\ open /\ Len(sizes) < MaxHalos
             /\ sizes' = Append(sizes, n)
             /\ IF n >= min THEN /\ kept' = Append(kept, Len(sizes) + 1) /\ counts' = Append(counts, n)
                                 /\ index' = index \o Particles(Len(sizes) + 1, n)
                            ELSE UNCHANGED <<kept, counts, index>>
             /\ UNCHANGED <<min, open, ask, answer>>
Close == /\ open /\ sizes # <<>> /\ open' = FALSE /\ UNCHANGED <<min, sizes, kept, index, counts, ask, answer>>
Valid(a) == /\ a # <<>> /\ \A k \in 1..Len(a) : a[k] >= 0 /\ a[k] < Len(kept)
            /\ \A j, k \in 1..Len(a) : j # k => a[j] # a[k]
RECURSIVE Before(_, _)
Before(c, k) == IF k = 0 THEN 0 ELSE c[k] + Before(c, k - 1)
\* the part of the index list that belongs to retained halo a
Slice(a) == SubSeq(index, Before(counts, a) + 1, Before(counts, a + 1))
Ask(a) == /\ ~open /\ answer = <<>>
          /\ ask' = a
          /\ answer' = IF Valid(a) THEN [k \in 1..Len(a) |-> Slice(a[k])[1][1]] ELSE <<0>>
          /\ UNCHANGED <<min, sizes, open, kept, index, counts>>
Requests == UNION {[1..n -> -1..MaxHalos] : n \in 0..MaxAsk}
Tell == /\ Record /\ answer # <<>> /\ answer # <<-9>>
        /\ PrintT("H|" \o ToJson([min |-> min, sizes |-> sizes, ask |-> ask]))
        /\ answer' = <<-9>> /\ UNCHANGED <<min, sizes, open, kept, index, counts, ask>>
Next == (\E n \in Sizes : Supply(n)) \/ Close \/ (\E a \in Requests : Ask(a)) \/ Tell
Spec == Init /\ [][Next]_vars
\* what a user relies on, said without the machine
Enough == {h \in 1..Len(sizes) : sizes[h] >= min}
ExactlyThose == {kept[k] : k \in 1..Len(kept)} = Enough /\ Len(kept) = Cardinality(Enough)
InOrder == \A j, k \in 1..Len(kept) : j < k => kept[j] < kept[k]
Indexed == /\ Len(counts) = Len(kept) /\ Len(index) = Before(counts, Len(counts))
           /\ \A k \in 1..Len(kept) : /\ counts[k] = sizes[kept[k]]
                                      /\ Slice(k - 1) = Particles(kept[k], counts[k])
Rows == (answer # <<>> /\ Valid(ask) /\ answer # <<-9>>) => answer = [k \in 1..Len(ask) |-> kept[ask[k] + 1]]
=============================================================================
