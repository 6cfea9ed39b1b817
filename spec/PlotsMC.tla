-------------------------------- MODULE PlotsMC --------------------------------
(* Two small machines.  Values (or nothing, for halos without a shape) are put into a histogram one
   by one; and plots of several kinds, object types and snapshots are written to one directory.     *)
EXTENDS Plots
CONSTANTS MaxValues, NEdges, Grains,   \* values are multiples of 1/Grains, up to 5/4 of the range
          MaxCalls
VARIABLES vals, nothing, bins, outside, dir, calls
vars == <<vals, nothing, bins, outside, dir, calls>>
Kinds == {"thist-local", "thist-global", "ehist", "shapes", "dens"}
Init == vals = <<>> /\ nothing = 0 /\ bins = [b \in 1..(NEdges - 1) |-> 0] /\ outside = 0 /\ dir = <<>> /\ calls = <<>>
Put(g) == /\ Len(vals) + nothing < MaxValues /\ calls = <<>>
          /\ LET v == Frac(g, Grains)
                 b == (g * (NEdges - 1)) \div Grains      \* by counting grains
                 at == IF g = Grains THEN NEdges - 1 ELSE b + 1
             IN  /\ vals' = Append(vals, v)
                 /\ IF g > Grains THEN outside' = outside + 1 /\ bins' = bins ELSE bins' = [bins EXCEPT ![at] = @ + 1] /\ outside' = outside
          /\ UNCHANGED <<nothing, dir, calls>>
Skip == Len(vals) + nothing < MaxValues /\ calls = <<>> /\ nothing' = nothing + 1 /\ UNCHANGED <<vals, bins, outside, dir, calls>>
Names(kind, suffix, snap) ==
  CASE kind = "thist-local" -> {<<"LocalTCount", suffix, snap>>}
    [] kind = "thist-global" -> {<<"GlobalTCount", suffix, snap>>}
    [] kind = "ehist" -> {<<"EpsCount", suffix, snap>>}
    [] kind = "shapes" -> {<<w, suffix, snap>> : w \in {"q", "s", "T", "qM1", "sM1", "TM1"}}
    [] OTHER -> {<<w, "_", snap>> : w \in {"RhoProf", "RhoProfM1"}}
\* dir: name -> number of the call that wrote it last
Call(kind, suffix, snap) ==
  /\ Len(calls) < MaxCalls /\ calls' = Append(calls, <<kind, suffix, snap>>)
  /\ dir' = [f \in DOMAIN dir \cup Names(kind, suffix, snap) |-> IF f \in Names(kind, suffix, snap) THEN Len(calls) + 1 ELSE dir[f]]
  /\ UNCHANGED <<vals, nothing, bins, outside>>
Next == (\E g \in 0..((5 * Grains) \div 4) : Put(g)) \/ Skip
        \/ (vals = <<>> /\ nothing = 0 /\ \E k \in Kinds, u \in {"_", "_dm_"}, p \in {"1", "2"} : Call(k, u, p))
Spec == Init /\ [][Next]_vars
\* every value in range is in exactly one bin, those without a value in none
OnceEach == /\ \A b \in 1..(NEdges - 1) : bins[b] = CountIn(vals, NEdges, b)
            /\ Counted(vals) = Len(vals) - outside
            /\ \A k \in 1..Len(vals) : Cardinality({b \in 1..(NEdges - 1) : InBin(vals[k], NEdges, b)}) = IF Le(vals[k], One) THEN 1 ELSE 0
\* the normalised histogram has area one
Area == Counted(vals) > 0 => Near(SumSeq([b \in 1..(NEdges - 1) |-> Mul(Height(vals, NEdges, b), Frac(1, NEdges - 1))]), One, Num("1e-12"))
\* the directory holds exactly the plots asked for, each by the last call that draws it; plots of different
\* kinds, types or snapshots never replace each other (density plots do not depend on the type)
Own == /\ DOMAIN dir = UNION {Names(calls[k][1], calls[k][2], calls[k][3]) : k \in 1..Len(calls)}
       /\ \A f \in DOMAIN dir : f \in Names(calls[dir[f]][1], calls[dir[f]][2], calls[dir[f]][3])
                                 /\ \A k \in (dir[f] + 1)..Len(calls) : f \notin Names(calls[k][1], calls[k][2], calls[k][3])
       /\ \A j, k \in 1..Len(calls) : Names(calls[j][1], calls[j][2], calls[j][3]) \cap Names(calls[k][1], calls[k][2], calls[k][3]) # {} =>
            calls[j][1] = calls[k][1] /\ calls[j][3] = calls[k][3] /\ (calls[j][1] # "dens" => calls[j][2] = calls[k][2])
===============================================================================
