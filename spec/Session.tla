------------------------------- MODULE Session -------------------------------
(* What users of catalogue objects see: unit systems, cache limits, objects over data sets, queries,
   plots and dumped shape catalogues, in any order.

   The answer to a query is named by a term [d, q, sel, cfg]: a function of the data set, the query
   and its arguments alone, to be converted to the output units in force.  The only state that an
   answer may depend on is a catalogue dumped earlier for the same object kind, snapshot and
   destination, and that one stands in only for the query it was dumped for.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs,        \* names of objects, 1..n
          Datas,       \* data sets; each has its own snapshot number
          Gadgets,     \* those given as simulation output (and re-read by queries)
          Dests,       \* destinations of dumps
          Sels, Cfgs,  \* selections of halos and settings
          Outs, Ins, Lims,
          Qs,          \* queries
          Plots, Dumps,
          Depth, Record

VARIABLES inU, outU, lim,
          obj,      \* object -> [d, dest, inU] or Nothing
          files,    \* <<dest, data, kind>> -> [sel, cfg, out]: the catalogues dumped
          hist
svars == <<inU, outU, lim, obj, files>>
vars == <<inU, outU, lim, obj, files, hist>>
Nothing == [d |-> 0, dest |-> 0, inU |-> 0]
Live(o) == obj[o] # Nothing

VelQ == {"vloc", "vglo", "vel", "dvloc", "dvglo"}
\* the dumped catalogue a query, plot or dump looks at, if any
Reads(q) == CASE q \in {"loc", "ell", "plotT", "plotS", "viz", "dloc"} -> "loc"
              [] q \in {"glo", "plotTg", "vizg", "dglo"} -> "glo"
              [] q \in {"vloc", "dvloc"} -> "vloc"
              [] q \in {"vglo", "dvglo"} -> "vglo"
              [] OTHER -> ""
FileKey(o, q) == <<obj[o].dest, obj[o].d, Reads(q)>>
Has(o, q) == Reads(q) # "" /\ FileKey(o, q) \in DOMAIN files
\* "fresh": the answer is the one of a fresh object.  A stored catalogue for other halos or settings,
\* or stored in other output units, must not stand in; that it does is a known defect of the code.
Source(o, q, sel, cfg) ==
  IF ~Has(o, q) THEN "fresh"
  ELSE LET f == files[FileKey(o, q)] IN
       IF f.sel # sel \/ f.cfg # cfg THEN "stale selection"
       ELSE IF f.out # outU THEN "stale units" ELSE "reload"
Term(o, q, sel, cfg) == [d |-> obj[o].d, q |-> q, sel |-> sel, cfg |-> cfg]

\* objects over simulation output convert it on every reading: their input units stay in force
Usable(o) == Live(o) /\ (obj[o].d \in Gadgets => obj[o].inU = inU)
SetIn(u)  == inU' = u /\ UNCHANGED <<outU, lim, obj, files>>
SetOut(u) == outU' = u /\ UNCHANGED <<inU, lim, obj, files>>
SetLim(l) == lim' = l /\ UNCHANGED <<inU, outU, obj, files>>
New(o, d, dest) == obj' = [obj EXCEPT ![o] = [d |-> d, dest |-> dest, inU |-> inU]] /\ UNCHANGED <<inU, outU, lim, files>>
\* no query changes anything
Query(o, q, sel, cfg) == Usable(o) /\ (q \in VelQ => obj[o].d \in Gadgets) /\ UNCHANGED svars
Plot(o, q, sel, cfg) == Usable(o) /\ UNCHANGED svars
\* a dump stores what the query returns; what is already stored is what the query returns
Dump(o, q, sel, cfg) ==
  /\ Usable(o) /\ (q \in VelQ => obj[o].d \in Gadgets)
  /\ files' = IF Has(o, q) THEN files ELSE (FileKey(o, q) :> [sel |-> sel, cfg |-> cfg, out |-> outU]) @@ files
  /\ UNCHANGED <<inU, outU, lim, obj>>

Init == /\ inU = 1 /\ outU = 1 /\ lim = 1 /\ obj = [o \in Objs |-> Nothing] /\ files = <<>> /\ hist = <<>>
E0 == [op |-> "", o |-> 0, q |-> "", sel |-> 0, cfg |-> 0, u |-> 0, d |-> 0, dest |-> 0]
Log(e) == hist' = IF Record THEN Append(hist, e @@ E0) ELSE Append(hist, 0)
More == Len(hist) < Depth
\* objects first: the histories are about what is done with them
AllMade == \A o \in Objs : Live(o)
Next ==
  \/ More /\ \E o \in Objs : \E d \in Datas : \E dest \in Dests :
       (Live(o) => Len(hist) % 7 = 0) /\ New(o, d, dest) /\ Log([op |-> "new", o |-> o, d |-> d, dest |-> dest])
  \/ More /\ AllMade /\ \E o \in Objs, q \in Qs, s \in Sels, c \in Cfgs : Query(o, q, s, c) /\ Log([op |-> "query", o |-> o, q |-> q, sel |-> s, cfg |-> c])
  \/ More /\ AllMade /\ \E o \in Objs, q \in Plots, s \in Sels, c \in Cfgs : Plot(o, q, s, c) /\ Log([op |-> "plot", o |-> o, q |-> q, sel |-> s, cfg |-> c])
  \/ More /\ AllMade /\ \E o \in Objs, q \in Dumps, s \in Sels, c \in Cfgs : Dump(o, q, s, c) /\ Log([op |-> "dump", o |-> o, q |-> q, sel |-> s, cfg |-> c])
  \/ More /\ \E u \in Ins \ {inU} : (AllMade => Len(hist) % 3 = 0) /\ SetIn(u) /\ Log([op |-> "in", u |-> u])
  \/ More /\ \E u \in Outs \ {outU} : SetOut(u) /\ Log([op |-> "out", u |-> u])
  \/ More /\ \E l \in Lims \ {lim} : SetLim(l) /\ Log([op |-> "lim", u |-> l])
  \/ /\ Record /\ Len(hist) = Depth /\ PrintT("H|" \o ToJson(hist))
     /\ hist' = Append(hist, E0) /\ UNCHANGED svars
Spec == Init /\ [][Next]_vars

\* ---- what the model promises
\* without a dump of its own kind no answer is anything but fresh, whatever else happened
FreshWithoutDump == \A o \in Objs : Live(o) => \A q \in Qs, s \in Sels, c \in Cfgs :
   (\A k \in DOMAIN files : k # FileKey(o, q)) => Source(o, q, s, c) = "fresh"
\* the unit systems of earlier dumps aside, an answer that is not fresh or reloaded needs a dump for other arguments
StaleOnlyByOwnDump == \A o \in Objs : Live(o) => \A q \in Qs, s \in Sels, c \in Cfgs :
   Source(o, q, s, c) \in {"stale selection", "stale units"} => FileKey(o, q) \in DOMAIN files
FilesKept == [][\A k \in DOMAIN files : k \in DOMAIN files' /\ files'[k] = files[k]]_vars
QueriesPure == [][(hist' # hist /\ Record /\ hist'[Len(hist')].op \in {"query", "plot"}) => UNCHANGED svars]_vars
=============================================================================
