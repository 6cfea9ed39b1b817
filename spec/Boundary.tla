------------------------------- MODULE Boundary -------------------------------
(* A compact object in a periodic box of B cells, one coordinate at a time (coordinates do not
   interact).  An object is born somewhere with its particles at offsets 0..Width from each other,
   is moved, wrapped into the box, and unwrapped about its first particle.  Whatever the moves, what
   comes out is the object as it was born, moved as a whole - so that every quantity that only
   depends on differences of positions is that of the uncut object.                              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS B,       \* cells of the box
          K        \* particles
Width == (B - 1) \div 2    \* widest compact object: smaller than half the box
VARIABLES born,    \* offsets of the particles at birth
          at,      \* true (unbounded) position of the object's origin
          stored,  \* what the catalogue holds: positions in the box
          seen     \* unwrapped positions, or <<>> while nobody has looked
vars == <<born, at, stored, seen>>
InBox(y) == y % B
Store(b, a) == [k \in 1..K |-> InBox(b[k] + a)]
UnwrapOne(y, ref) == IF 2 * (y - ref) > B THEN y - B ELSE IF 2 * (y - ref) < -B THEN y + B ELSE y
UnwrapAll(s) == [k \in 1..K |-> UnwrapOne(s[k], s[1])]
Init == /\ born \in [1..K -> 0..Width] /\ at = 0 /\ stored = Store(born, 0) /\ seen = <<>>
Move(v) == /\ at' = (at + v) /\ stored' = [k \in 1..K |-> InBox(stored[k] + v)] /\ seen' = <<>> /\ UNCHANGED born
Look == /\ seen = <<>> /\ seen' = UnwrapAll(stored) /\ UNCHANGED <<born, at, stored>>
Next == (\E v \in {1, -1, 3} : at + v \in -B..B /\ Move(v)) \/ Look
Spec == Init /\ [][Next]_vars
Whole == seen # <<>> => \A j, k \in 1..K : seen[j] - seen[k] = born[j] - born[k]
Placed == seen # <<>> => \A k \in 1..K : (seen[k] - (born[k] + at)) % B = 0
Inside == \A k \in 1..K : stored[k] \in 0..B - 1
\* the sum of the unwrapped positions, brought back into the box, moves with the object
CentreMoves == seen # <<>> => LET S[k \in 0..K] == IF k = 0 THEN 0 ELSE S[k - 1] + seen[k]
                                  T[k \in 0..K] == IF k = 0 THEN 0 ELSE T[k - 1] + born[k]
                              IN (S[K] - (T[K] + K * at)) % (K * B) = 0
=============================================================================
