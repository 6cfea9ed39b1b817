---------------------------- MODULE SessionTrace ----------------------------
(* Recorded histories replayed through the actions of Session: every answer must be the one its
   term names, as found by a fresh object in a process of its own, in the units in force.       *)
EXTENDS Session, Units, IOUtils
Data == JsonDeserialize(IOEnv.CASES)
Hists == Data.hists      \* sequences of operations: an operation of Session with ans and ref
Refs == Data.refs        \* answers of fresh objects: [d, q, sel, cfg, f]
UnitsOf == Data.units    \* output systems: [len, mass, vel, h]
VARIABLES i, pos, fails
tvars == <<i, pos, fails>>
Op == Hists[i][pos]
\* dimensions of the fields of answers: length, mass, velocity exponents, and how fields compare:
\* "rel" entry by entry, "abs" against the largest entry of the field, "axis" triples up to sign, "same" exactly
Dim(f) == CASE f \in {"d", "r200", "xyz", "centre", "centers", "r_s"} -> <<1, 0, 0>>
            [] f \in {"masses", "mass", "m"} -> <<0, 1, 0>>
            [] f \in {"rho", "rho_s"} -> <<-3, 1, 0>>
            [] f = "vel" -> <<0, 0, 1>>
            [] OTHER -> <<0, 0, 0>>
How(f) == CASE f \in {"major", "inter", "minor"} -> "axis" [] f \in {"xyz", "centre", "centers", "vel"} -> "abs" [] f \in {"idx", "size", "is_conv"} -> "same" [] OTHER -> "rel"
\* (simulation output is stored with 24 bits: the kernel, h of which is a small part of a coordinate, amplifies that)
Tol(q, src, d) == IF q = "ker" /\ d \in Gadgets THEN Num("2e-3") ELSE IF q \in {"fit", "conc"} THEN Num("2e-3") ELSE IF src = "reload" THEN Num("3e-6") ELSE Num("1e-6")
RECURSIVE MaxAbs(_, _)
MaxAbs(s, k) == IF k > Len(s) THEN Zero ELSE LET r == MaxAbs(s, k + 1) IN IF IsNaN(s[k]) THEN r ELSE Max2(Abs(s[k]), r)
SameField(f, a, r, u, tol) ==
  LET d == Dim(f)  c == Factor(u, d[1], d[2], d[3])  w == TLCEval([k \in 1..Len(r) |-> Mul(c, r[k])])
  IN /\ Len(a) = Len(r)
     /\ CASE How(f) = "same" -> a = r
          [] How(f) = "rel" -> \A k \in 1..Len(a) : NearRel(a[k], w[k], tol)
          [] How(f) = "abs" -> LET s == Mul(tol, MaxAbs(w, 1)) IN \A k \in 1..Len(a) : (IsNaN(a[k]) /\ IsNaN(w[k])) \/ Le(Abs(Sub(a[k], w[k])), s)
          [] OTHER -> \A t \in 0..(Len(a) \div 3) - 1 :
                 \/ \A k \in 3*t+1..3*t+3 : (IsNaN(a[k]) /\ IsNaN(w[k])) \/ Le(Abs(Sub(a[k], w[k])), Mul(FromInt(20), tol))
                 \/ \A k \in 3*t+1..3*t+3 : Le(Abs(Add(a[k], w[k])), Mul(FromInt(20), tol))
Bad(ans, ref, u, tol) == IF DOMAIN ans # DOMAIN ref THEN {"fields"} ELSE {f \in DOMAIN ref : ~SameField(f, ans[f], ref[f], u, tol)}
RECURSIVE Names(_)
Names(S) == IF S = {} THEN "" ELSE LET x == CHOOSE y \in S : TRUE IN x \o "," \o Names(S \ {x})
\* the files of the catalogues stored under a destination
Parts == <<"d", "q", "s", "minor", "inter", "major", "m", "centers">>
KindName(k) == IF k \in {"loc", "vloc"} THEN "local" ELSE "global"
Stars == 7  \* the stars of the simulation whose dark matter is data set 3
Snap(d) == "03" \o ToString(IF d = Stars THEN 3 ELSE d)
Suffix(d, k) == IF d \notin Gadgets THEN "_" ELSE (IF k \in {"vloc", "vglo"} THEN "_v" ELSE "_") \o (IF d = Stars THEN "stars_" ELSE "dm_")
FileNames(dest) == UNION {{Parts[p] \o "_" \o KindName(k[3]) \o Suffix(k[2], k[3]) \o Snap(k[2]) \o ".txt" : p \in 1..8} : k \in {y \in DOMAIN files' : y[1] = dest}}
Listing(ls) == {ls[k] : k \in 1..Len(ls)}
Say(txt) == fails' = fails \o ToString(pos) \o ":" \o txt \o " "
\* how an answer differs from what it should be
Verdict(o, src) ==
  LET op == Op
      r == IF op.ref > 0 THEN Refs[op.ref] ELSE [f |-> <<>>]
      t == Term(o, op.q, op.sel, op.cfg)
  IN IF op.ref > 0 /\ [d |-> r.d, q |-> r.q, sel |-> r.sel, cfg |-> r.cfg] # t THEN "HARNESS"
     ELSE IF ~op.ans.ok THEN "raised"
     ELSE IF op.ref = 0 THEN ""
     ELSE Names(Bad(op.ans.f, r.f, UnitsOf[outU], Tol(op.q, src, obj[o].d)))
Note(txt, src) == IF txt = "" THEN fails' = fails
                  ELSE Say("[" \o src \o "]" \o Op.q \o "=" \o txt)
Clean == IF Op.ans.clean THEN "" ELSE "arguments-changed,"
Step ==
  /\ pos <= Len(Hists[i]) /\ pos' = pos + 1 /\ UNCHANGED <<i, hist>>
  /\ CASE Op.op = "in" -> SetIn(Op.u) /\ Note(IF Op.ans.ok THEN Clean ELSE "raised", "in")
       [] Op.op = "out" -> SetOut(Op.u) /\ Note(IF Op.ans.ok THEN Clean ELSE "raised", "out")
       [] Op.op = "lim" -> SetLim(Op.u) /\ Note(IF Op.ans.ok THEN Clean ELSE "raised", "lim")
       [] Op.op = "new" -> New(Op.o, Op.d, Op.dest) /\ Note(IF Op.ans.ok THEN Clean ELSE "raised", "new")
       [] Op.op = "query" -> Query(Op.o, Op.q, Op.sel, Op.cfg) /\ Note(Verdict(Op.o, Source(Op.o, Op.q, Op.sel, Op.cfg)) \o Clean, Source(Op.o, Op.q, Op.sel, Op.cfg))
       [] Op.op = "plot" -> Plot(Op.o, Op.q, Op.sel, Op.cfg) /\ Note(Verdict(Op.o, Source(Op.o, Op.q, Op.sel, Op.cfg)) \o Clean, Source(Op.o, Op.q, Op.sel, Op.cfg))
       [] OTHER -> /\ Dump(Op.o, Op.q, Op.sel, Op.cfg)
                   /\ Note(Verdict(Op.o, Source(Op.o, Op.q, Op.sel, Op.cfg)) \o Clean
                           \o (IF Op.ans.ok /\ Listing(Op.ans.ls) # FileNames(obj[Op.o].dest) THEN "files," ELSE ""), Source(Op.o, Op.q, Op.sel, Op.cfg))
Done == /\ pos = Len(Hists[i]) + 1 /\ PrintT("R|" \o ToString(i) \o "|" \o IF fails = "" THEN "OK" ELSE fails)
        /\ pos' = pos + 1 /\ UNCHANGED <<i, fails, hist>> /\ UNCHANGED svars
TInit == Init /\ i \in 1..Len(Hists) /\ pos = 1 /\ fails = ""
TSpec == TInit /\ [][Step \/ Done]_<<vars, tvars>>
=============================================================================
