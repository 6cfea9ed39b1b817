--------------------------- MODULE GadgetBinaryGen ---------------------------
(* Writes the bytes of the files of every case. *)
EXTENDS GadgetBinary, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, k
Init == i \in 1..Len(Cases) /\ k \in 1..Len(Cases[i].files)
Emit == /\ k > 0 /\ k' = 0 /\ i' = i
        /\ \E c \in {Cases[i]} : Assert(IsNatural(c.cfg), "order") /\ \E bs \in {FileBytes(Records(c.h, c.files[k], c.cfg), c.cfg.fmt, c.cfg.big)} :
             JsonSerialize(IOEnv.OUT \o "/" \o ToString(i) \o "-" \o ToString(k) \o ".json", bs)
Spec == Init /\ [][Emit]_<<i, k>>
==============================================================================
