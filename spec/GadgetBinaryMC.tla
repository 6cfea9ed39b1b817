--------------------------- MODULE GadgetBinaryMC ---------------------------
(* Scanning a file for any block finds exactly the data that was laid out, in both formats and byte
   orders, whatever blocks precede it.                                                          *)
EXTENDS GadgetBinary
CONSTANTS MaxBlocks, MaxLen
VARIABLES recs, fmt, big, k
Names == {"POS ", "VEL ", "ID  ", "MASS", "U   "}
Data == UNION {[1..n -> {0, 85, 255}] : n \in {0, MaxLen}} \cup {<<8, 0, 0, 0, 80, 79, 83, 32>>}    \* data that looks like a name record
Init == recs = <<[name |-> "HEAD", data |-> <<1, 2, 3>>]>> /\ fmt \in {1, 2} /\ big \in BOOLEAN /\ k = 0
AddBlock == /\ Len(recs) <= MaxBlocks
            /\ \E n \in Names \ {recs[j].name : j \in 1..Len(recs)}, d \in Data : recs' = Append(recs, [name |-> n, data |-> d])
            /\ UNCHANGED <<fmt, big, k>>
Next == AddBlock \/ UNCHANGED <<recs, fmt, big, k>>
Spec == Init /\ [][Next]_<<recs, fmt, big, k>>
Finds == LET bs == FileBytes(recs, fmt, big)
         IN  /\ \A j \in 1..Len(recs) : Found(bs, Scan(bs, 1, fmt, big, recs[j].name, j)) = recs[j].data
             /\ \A n \in Names : (\A j \in 1..Len(recs) : recs[j].name # n) /\ fmt = 2 => Scan(bs, 1, fmt, big, n, 99).at = 0
\* the reader's place for a block is its place in the natural order
Places == \A layout \in 0..2, nomass \in BOOLEAN : LET o == Natural(layout, nomass)
                                                 IN \A j \in 2..Len(o) : Place(o[j], layout, nomass) = j
BytesOk == \A w \in {0, 1, 255, 256, 65535, 16777216, 2147483647, -1, -2, -256, -2147483647} :
             /\ \A b \in 1..4 : Word(w, big)[b] \in 0..255
             /\ Word(w, TRUE) = Reverse(Word(w, FALSE))
Singles == /\ Single(One) = 1065353216 /\ Single(Num("-2.5")) = -1071644672 /\ Single(Zero) = 0
           /\ Single(Num("0.15625")) = 1042284544 /\ Single(Num("65536")) = 1199570944 /\ Single(Num("-0.0078125")) = -1140850688
==============================================================================
