---------------------------- MODULE GadgetBinary ----------------------------
(* The binary snapshot formats byte by byte.  Format 1 is a sequence of records, each its data
   between two copies of its length; in format 2 every record is preceded by a record of eight bytes
   with the four-letter name of the block and the distance to the next one.  Numbers are in either
   byte order, reals in single or double precision, identifiers in four or eight bytes.
   The reader is the machine Scan: it walks over the records until it meets the block.          *)
EXTENDS Snapshot

\* four bytes of a 32-bit integer, least significant first
Bytes4(w) == <<w % 256, (w \div 256) % 256, (w \div 65536) % 256, (w \div 16777216) % 256>>
Word(w, big) == IF big THEN Reverse(Bytes4(w)) ELSE Bytes4(w)
\* a 64-bit pattern <<hi, lo>>
Double(d, big) == IF big THEN Word(d[1], big) \o Word(d[2], big) ELSE Word(d[2], big) \o Word(d[1], big)
\* the 32-bit pattern of a double that is exactly a single: sign, exponent rebased, top 23 bits of the fraction
Single(d) == LET hi == d[1]
                 neg == hi < 0
                 ex == (hi \div 1048576) % 2048
                 fr == (hi % 1048576)*8 + ((d[2] \div 536870912) % 8)
                 e8 == ex - 896
             IN  IF ex = 0 THEN (IF neg THEN -2147483647 - 1 ELSE 0)
                 ELSE LET m == e8*8388608 + fr IN IF neg THEN m - 2147483647 - 1 ELSE m
Letters(name) == CASE name = "HEAD" -> <<72, 69, 65, 68>>
                   [] name = "POS " -> <<80, 79, 83, 32>> [] name = "VEL " -> <<86, 69, 76, 32>>
                   [] name = "ID  " -> <<73, 68, 32, 32>> [] name = "MASS" -> <<77, 65, 83, 83>>
                   [] name = "ACCE" -> <<65, 67, 67, 69>> [] name = "U   " -> <<85, 32, 32, 32>>
                   [] name = "RHO " -> <<82, 72, 79, 32>> [] name = "VOL " -> <<86, 79, 76, 32>>
                   [] name = "CMCE" -> <<67, 77, 67, 69>> [] name = "AREA" -> <<65, 82, 69, 65>>
                   [] name = "NFAC" -> <<78, 70, 65, 67>> [] name = "NE  " -> <<78, 69, 32, 32>>
                   [] name = "NH  " -> <<78, 72, 32, 32>> [] name = "HSML" -> <<72, 83, 77, 76>>
                   [] name = "SFR " -> <<83, 70, 82, 32>> [] name = "MHI " -> <<77, 72, 73, 32>>
                   [] name = "TEMP" -> <<84, 69, 77, 80>> [] name = "AGE " -> <<65, 71, 69, 32>>
                   [] name = "Z   " -> <<90, 32, 32, 32>> [] name = "BHMA" -> <<66, 72, 77, 65>>
                   [] name = "BHMD" -> <<66, 72, 77, 68>>

\* a record: [name, data : bytes]
Framed(r, fmt, big) == (IF fmt = 2 THEN Word(8, big) \o Letters(r.name) \o Word(Len(r.data) + 8, big) \o Word(8, big) ELSE <<>>)
                       \o Word(Len(r.data), big) \o r.data \o Word(Len(r.data), big)
FileBytes(recs, fmt, big) == Flat([k \in 1..Len(recs) |-> Framed(recs[k], fmt, big)])

\* ---- the header record: 256 bytes
Words(ws, big) == Flat([k \in 1..Len(ws) |-> Word(ws[k], big)])
Doubles(ds, big) == Flat([k \in 1..Len(ds) |-> Double(ds[k], big)])
HeaderRecord(h, npart, big) ==
  LET b == Words(npart, big) \o Doubles(h.table, big) \o Doubles(<<h.time, h.redshift>>, big) \o Words(<<h.sfr, h.feedback>>, big)
           \o Words(h.nall, big) \o Words(<<h.cooling, h.files>>, big) \o Doubles(<<h.box, h.omegam, h.omegal, h.hubble>>, big)
  IN  [name |-> "HEAD", data |-> b \o [k \in 1..(256 - Len(b)) |-> 0]]
Real(d, prec, big) == IF prec = 8 THEN Double(d, big) ELSE Word(Single(d), big)
Reals(ds, prec, big) == Flat([k \in 1..Len(ds) |-> Real(ds[k], prec, big)])
\* ids are pairs <<hi, lo>>
Id(d, wide, big) == IF wide THEN Double(d, big) ELSE Word(d[2], big)
AllTypes(f) == Flat([t \in Types |-> f[t]])
\* Format 1 knows a block only by its place.  The natural order depends on the code that wrote the file (layout 0:
\* Gadget; 1: one block more after the density; 2: four more) and on whether masses are stored at all.
Natural(layout, nomass) ==
  <<"HEAD", "POS ", "VEL ", "ID  ">> \o (IF nomass THEN <<>> ELSE <<"MASS">>) \o <<"U   ", "RHO ">>
  \o (CASE layout = 0 -> <<>> [] layout = 1 -> <<"VOL ">> [] OTHER -> <<"VOL ", "CMCE", "AREA", "NFAC">>)
  \o <<"NE  ", "NH  ", "HSML", "SFR ", "AGE ", "Z   ", "BHMA", "BHMD">>
\* the place at which the reader looks for a block
Place(name, layout, nomass) ==
  LET sub == IF nomass THEN 1 ELSE 0
      add == CASE layout = 0 -> 0 [] layout = 1 -> 1 [] OTHER -> 4
  IN  CASE name = "POS " -> 2 [] name = "VEL " -> 3 [] name = "ID  " -> 4 [] name \in {"MASS", "ACCE"} -> 5
        [] name = "U   " -> 6 - sub [] name = "RHO " -> 7 - sub [] name = "VOL " -> 8 - sub [] name = "CMCE" -> 9 - sub
        [] name = "AREA" -> 10 - sub [] name = "NFAC" -> 11 - sub [] name = "NE  " -> 8 + add - sub [] name = "NH  " -> 9 + add - sub
        [] name = "HSML" -> 10 + add - sub [] name = "SFR " -> 11 + add - sub [] name \in {"AGE ", "MHI "} -> 12 + add - sub
        [] name \in {"Z   ", "TEMP"} -> 13 + add - sub [] name = "BHMA" -> 14 + add - sub [] OTHER -> 15 + add - sub
IsNatural(cfg) == \/ cfg.fmt = 2
                  \/ LET o == <<"HEAD">> \o cfg.order
                     IN  IF o[Len(o)] = "ACCE" THEN o = <<"HEAD", "POS ", "VEL ", "ID  ", "ACCE">>
                         ELSE o = SubSeq(Natural(cfg.layout, cfg.nomass), 1, Len(o))
\* the records of one file; cfg.order lists the blocks after the header
Records(h, f, cfg) ==
  LET big == cfg.big
      ids(s) == Flat([k \in 1..Len(s) |-> Id(s[k], cfg.wide, big)])
      more(b) == LET s == AllTypes(f.more[b])
                 IN CASE EntryOf(b) = "vector" -> Reals(Flat(s), cfg.prec, big)
                      [] EntryOf(b) = "integer" -> Flat([k \in 1..Len(s) |-> Double(s[k], big)])
                      [] OTHER -> Reals(s, cfg.prec, big)
      rec(b) == [name |-> b, data |->
                 CASE b = "POS " -> Reals(Flat(AllTypes(f.pos)), cfg.prec, big)
                   [] b = "VEL " -> Reals(Flat(AllTypes(f.vel)), cfg.prec, big)
                   [] b = "ID  " -> ids(AllTypes(f.ids))
                   [] b = "MASS" -> Reals(AllTypes(f.mass), cfg.prec, big)
                   [] OTHER -> more(b)]
  IN  <<HeaderRecord(h, f.npart, big)>> \o [k \in 1..Len(cfg.order) |-> rec(cfg.order[k])]

\* ---- the reader
Unword(bs, at, big) == LET q == IF big THEN Reverse(SubSeq(bs, at, at+3)) ELSE SubSeq(bs, at, at+3) IN q[1] + 256*q[2] + 65536*q[3]
\* [at : first byte of the data, size] of the wanted block: by name in format 2, by number in format 1
RECURSIVE Scan(_, _, _, _, _, _)
Scan(bs, at, fmt, big, name, number) ==
  IF at > Len(bs) THEN [at |-> 0, size |-> 0]
  ELSE LET named == fmt = 2 /\ SubSeq(bs, at + 4, at + 7) = Letters(name)
           from  == IF fmt = 2 THEN at + 16 ELSE at
           size  == Unword(bs, from, big)
       IN  IF named \/ (fmt = 1 /\ number = 1) THEN [at |-> from + 4, size |-> size]
           ELSE Scan(bs, from + size + 8, fmt, big, name, number - 1)
Found(bs, r) == SubSeq(bs, r.at, r.at + r.size - 1)
==============================================================================
