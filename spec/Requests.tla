------------------------------ MODULE Requests ------------------------------
(* Which requests are well-formed, and what a request does to the world.

   A request is a record; what a function does not look at is left at its default:
     fn      the function
     sel, n  the halo numbers asked for - doubled, so that 1 stands for one half - of n halos
     katz    [missing, flag, number, text]: the setting left out, the flag given as an integer, whether the radii are
             a single number, and the numeric setting given as text ("" for none)
     method  [dict, profile, extra, mini]: whether it is a dictionary, its profile ("" if absent), the other fields,
             the minimiser ("" if absent)
     rows    density profiles handed over,  nr  radii asked for
     names   three unit names (length, mass, velocity); "#" stands for a plain number
     kind    object type, rad the definition of the radius, files the number of group files

   A request that is not well-formed is refused and leaves everything as it was.  One that is is served.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Queries == {"mc", "sph", "ker", "ell", "fit", "conc", "plotD", "loc", "glo", "viz", "vizg", "plotE", "plotEg", "plotT", "plotTg",
            "plotS", "dloc", "dglo"}
VelQueries == {"vloc", "vglo", "dvloc", "dvglo"}
UnitFns == {"in", "out"}
Fns == Queries \cup VelQueries \cup UnitFns \cup {"new"}
KatzFns == {"ell", "loc", "glo", "viz", "vizg", "plotT", "plotTg", "plotS", "dloc", "dglo"} \cup VelQueries
MethodFns == {"fit", "conc", "plotD"}
RadiiFns == {"ell"}

Profiles == {"nfw", "hernquist", "einasto", "alpha_beta_gamma"}
Minimisers == {"Nelder-Mead", "L-BFGS-B", "TNC", "SLSQP", "Powell", "trust-constr"}
Fields(p) == CASE p = "einasto" -> {"rho_s", "r_s", "alpha"} [] p = "alpha_beta_gamma" -> {"rho_s", "r_s", "alpha", "beta", "gamma"}
               [] OTHER -> {"rho_s", "r_s"}
LenNames == {"pc", "kpc", "Mpc", "Gpc", "pc/h", "kpc/h", "Mpc/h", "Gpc/h", "#"}
MassNames == {"Msun", "E+10Msun", "Msun/h", "E+10Msun/h", "#"}
VelNames == {"km/s", "#"}

SelOk(sel, n) == /\ Len(sel) > 0
                 /\ \A i \in DOMAIN sel : sel[i] >= 0 /\ sel[i] % 2 = 0 /\ sel[i] \div 2 < n
                 /\ \A i, j \in DOMAIN sel : i # j => sel[i] # sel[j]
KatzOk(k) == k.missing = "" /\ k.flag = "" /\ ~k.number /\ k.text = ""
MethodOk(m) == /\ m.dict /\ m.profile \in Profiles
               /\ \A i \in DOMAIN m.extra : m.extra[i] \in Fields(m.profile)
               /\ m.mini \in Minimisers \cup {""}
NamesOk(u) == u[1] \in LenNames /\ u[2] \in MassNames /\ u[3] \in VelNames
WellFormed(r) ==
  CASE r.fn \in UnitFns -> NamesOk(r.names)
    [] r.fn = "new" -> r.kind \in {"dm", "gas", "stars"} /\ r.rad \in {"Rvir", "R200"} /\ r.files > 0
    [] OTHER -> /\ SelOk(r.sel, r.n)
                /\ r.fn \in KatzFns => KatzOk(r.katz)
                /\ r.fn \in MethodFns => MethodOk(r.method) /\ r.rows = Len(r.sel)
                /\ r.fn \in RadiiFns => r.nr >= 3

----------------------------------------------------------------------------
(* The requests made: for every function all well-formed varieties, and every single fault *)
GoodKatz == [missing |-> "", flag |-> "", number |-> FALSE, text |-> ""]
GoodMethod == [dict |-> TRUE, profile |-> "nfw", extra |-> <<>>, mini |-> ""]
Base(fn, n) == [fn |-> fn, sel |-> <<0, 2>>, n |-> n, katz |-> GoodKatz, method |-> GoodMethod, rows |-> 2, nr |-> 3,
                names |-> <<"kpc", "Msun", "km/s">>, kind |-> "dm", rad |-> "Rvir", files |-> 1]
WithSel(r, s) == [r EXCEPT !.sel = s, !.rows = Len(s)]
GoodSels(n) == {<<2 * (n - 1)>>, <<0>>, <<2 * (n - 1), 0>>, <<0, 2, 4>>}
BadSels(n) == {<<>>, <<-2>>, <<0, -2>>, <<2 * n>>, <<0, 2 * n>>, <<2 * n + 8>>, <<0, 0>>, <<2, 0, 2>>, <<0, 2, 4, 0>>, <<0, 2, 4, -2>>, <<4, 2, 1, 0>>, <<1>>, <<0, 3>>, <<-1>>}
KatzKeys == {"ROverR200", "IT_TOL", "IT_WALL", "IT_MIN", "REDUCED", "SHELL_BASED"}
BadKatz == {[GoodKatz EXCEPT !.missing = k] : k \in KatzKeys} \cup {[GoodKatz EXCEPT !.flag = f] : f \in {"REDUCED", "SHELL_BASED"}}
           \cup {[GoodKatz EXCEPT !.number = TRUE]} \cup {[GoodKatz EXCEPT !.text = k] : k \in {"IT_TOL", "IT_WALL", "IT_MIN"}}
GoodMethods == {[GoodMethod EXCEPT !.profile = p] : p \in Profiles}
  \cup {[GoodMethod EXCEPT !.profile = p, !.extra = <<x>>] : p \in Profiles, x \in {"rho_s", "r_s"}}
  \cup {[GoodMethod EXCEPT !.profile = "einasto", !.extra = <<"alpha">>],
        [GoodMethod EXCEPT !.profile = "alpha_beta_gamma", !.extra = <<"alpha", "beta", "gamma">>]}
  \cup {[GoodMethod EXCEPT !.mini = m] : m \in Minimisers}
BadMethods == {[GoodMethod EXCEPT !.dict = FALSE]} \cup {[GoodMethod EXCEPT !.profile = p] : p \in {"", "burkert", "NFW", "einasto "}}
  \cup {[GoodMethod EXCEPT !.profile = p, !.extra = <<x>>] : p \in {"nfw", "hernquist"}, x \in {"alpha", "beta", "gamma"}}
  \cup {[GoodMethod EXCEPT !.profile = "einasto", !.extra = <<x>>] : x \in {"beta", "gamma"}}
  \cup {[GoodMethod EXCEPT !.profile = p, !.extra = <<"rs">>] : p \in Profiles}
  \cup {[GoodMethod EXCEPT !.mini = m] : m \in {"BFGS", "nelder-mead", "none"}}
Good(fn, n) ==
  LET b == Base(fn, n) IN
  CASE fn \in UnitFns -> {[b EXCEPT !.names = <<l, m, v>>] : l \in LenNames, m \in MassNames, v \in VelNames}
    [] fn = "new" -> {[b EXCEPT !.kind = k, !.rad = r] : k \in {"dm", "gas", "stars"}, r \in {"Rvir", "R200"}}
    [] OTHER -> {b} \cup {WithSel(b, s) : s \in GoodSels(n)}
                \cup (IF fn \in MethodFns THEN {[b EXCEPT !.method = m] : m \in GoodMethods} ELSE {})
                \cup (IF fn \in RadiiFns THEN {[b EXCEPT !.nr = k] : k \in {4, 7}} ELSE {})
Bad(fn, n) ==
  LET b == Base(fn, n) IN
  CASE fn \in UnitFns -> {[b EXCEPT !.names[1] = x] : x \in {"km", "MPC", "Msun", ""}} \cup {[b EXCEPT !.names[2] = x] : x \in {"kg", "msun", "kpc"}}
                         \cup {[b EXCEPT !.names[3] = x] : x \in {"m/s", "kms", "Msun"}}
    [] fn = "new" -> {[b EXCEPT !.kind = k] : k \in {"bh", "DM", "star"}} \cup {[b EXCEPT !.rad = x] : x \in {"R500", "rvir"}} \cup {[b EXCEPT !.files = 0]}
    [] OTHER -> {WithSel(b, s) : s \in BadSels(n)}
                \cup (IF fn \in KatzFns THEN {[b EXCEPT !.katz = k] : k \in BadKatz} ELSE {})
                \cup (IF fn \in MethodFns THEN {[b EXCEPT !.method = m] : m \in BadMethods} \cup {[b EXCEPT !.rows = k] : k \in {0, 1, 3}} ELSE {})
                \cup (IF fn \in RadiiFns THEN {[b EXCEPT !.nr = k] : k \in {0, 1, 2}} ELSE {})
=============================================================================
