---------------------------- MODULE SelectionTrace ----------------------------
(* Recorded catalogues and requests replayed through Selection.  A case:
   [min, halos : sequence of [ids, mass, r200, masses], idx, size, r200 : what the object reports,
    alone : for each retained halo, the kernel densities (their sum) it has when requested alone, if recorded,
    asks : sequence of [sel, res : record of query -> [ok, err, v : values]], frac, big, safe, rs].  *)
EXTENDS Integers, R, TLC, IOUtils, Json
VARIABLES i, k, n, min, sizes, open, kept, index, counts, ask, answer, bad
Cases == JsonDeserialize(IOEnv.CASES)
M == INSTANCE Selection WITH Mins <- 1..1000, Sizes <- 0..1000, MaxHalos <- 1000, MaxAsk <- 0, Record <- FALSE
mvars == <<min, sizes, open, kept, index, counts, ask, answer>>
C == Cases[i]
H(h) == C.halos[h]
Init == i \in 1..Len(Cases) /\ k = 1 /\ n = 0 /\ min = Cases[i].min /\ M!Init /\ bad = ""
Supply == /\ open /\ k <= Len(C.halos) /\ M!Supply(Len(H(k).ids)) /\ k' = k + 1 /\ UNCHANGED <<i, n, bad>>
Catalogue ==
  (IF C.size = [j \in 1..Len(kept) |-> counts[j]] THEN "" ELSE "sizes ")
  \o (IF C.idx = [j \in 1..Len(index) |-> H(index[j][1]).ids[index[j][2]]] THEN "" ELSE "index-list ")
  \o (IF Len(C.r200) = Len(kept) /\ \A j \in 1..Len(kept) : NearRel(C.r200[j], H(kept[j]).r200, Num("1e-6")) THEN "" ELSE "radii ")
Close == /\ open /\ k > Len(C.halos) /\ M!Close /\ bad' = bad \o Catalogue /\ UNCHANGED <<i, k, n>>
Pi43 == Num("4.1887902047863905")
\* the value a query gives for halo h
Expect(q, h) == CASE q \in {"mc", "file"} -> H(h).mass
                  [] q = "loc" -> Mul(C.frac, H(h).r200)
                  [] q = "glo" -> Add(H(h).r200, C.safe)
                  [] q \in {"sph", "ell"} -> Div(H(h).mass, Mul(Pi43, Pow(Mul(C.big, H(h).r200), FromInt(3))))
                  [] q = "fit" -> Mul(C.rs, H(h).r200)
                  [] q = "conc" -> Div(One, C.rs)
                  [] q = "ker" -> C.alone[CHOOSE j \in 1..Len(kept) : kept[j] = h]
                  [] OTHER -> NaN
TolOf(q) == IF q \in {"fit", "conc"} THEN Num("1e-2") ELSE Num("1e-5")
OptionalNaN(q) == q \in {"loc", "glo", "ell"}
RowOK(q, v, h) == NearRel(v, Expect(q, h), TolOf(q)) \/ (OptionalNaN(q) /\ IsNaN(v))
Judge(a) == IF answer'[1] = 0 THEN {q \in DOMAIN a.res : a.res[q].ok}
            ELSE {q \in DOMAIN a.res : ~(a.res[q].ok /\ Len(a.res[q].v) = Len(answer') /\ \A j \in 1..Len(answer') : RowOK(q, a.res[q].v[j], answer'[j]))}
RECURSIVE Join(_)
Join(set) == IF set = {} THEN "" ELSE LET w == CHOOSE w \in set : TRUE IN w \o " " \o Join(set \ {w})
Ask == /\ ~open /\ n < Len(C.asks) /\ answer = <<>> /\ M!Ask(C.asks[n + 1].sel)
       /\ bad' = bad \o (IF M!Valid(C.asks[n + 1].sel) THEN "" ELSE IF Judge(C.asks[n + 1]) = {} THEN "" ELSE "not-refused:") \o Join(Judge(C.asks[n + 1]))
       /\ n' = n + 1 /\ UNCHANGED <<i, k>>
Again == /\ answer # <<>> /\ n < Len(C.asks) /\ answer' = <<>> /\ UNCHANGED <<i, k, n, min, sizes, open, kept, index, counts, ask, bad>>
Done == /\ ~open /\ n = Len(C.asks) /\ PrintT("R|" \o ToString(i) \o "|" \o IF bad = "" THEN "OK" ELSE bad)
        /\ n' = n + 1 /\ UNCHANGED <<i, k, bad>> /\ UNCHANGED mvars
Spec == Init /\ [][Supply \/ Close \/ Ask \/ Again \/ Done]_<<i, k, n, bad, mvars>>
=============================================================================
