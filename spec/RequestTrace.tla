---------------------------- MODULE RequestTrace ----------------------------
(* Judges what requests did to the real code.  A case is a session: its requests in order, each with
   whether it was served and the world seen after it:
     conv   what 1 becomes in <<length, mass, velocity>> out of the internal units, then into them
     files  the files there are,  data  digest of the particle data and of the answer to a fixed query   *)
EXTENDS Requests, R, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Tol == Num("1e-6")
Writes(fn) == fn \in {"plotD", "viz", "vizg", "plotE", "plotEg", "plotT", "plotTg", "plotS", "dloc", "dglo", "dvloc", "dvglo"}
Range(s) == {s[i] : i \in DOMAIN s}

LenCm(s, h, x) == CASE s = "pc" -> Num("3.085678e18") [] s = "kpc" -> Num("3.085678e21") [] s = "Mpc" -> Num("3.085678e24") [] s = "Gpc" -> Num("3.085678e27")
              [] s = "pc/h" -> Div(Num("3.085678e18"), h) [] s = "kpc/h" -> Div(Num("3.085678e21"), h)
              [] s = "Mpc/h" -> Div(Num("3.085678e24"), h) [] s = "Gpc/h" -> Div(Num("3.085678e27"), h) [] OTHER -> x
MassG(s, h, x) == CASE s = "Msun" -> Num("1.989e33") [] s = "E+10Msun" -> Num("1.989e43") [] s = "Msun/h" -> Div(Num("1.989e33"), h)
              [] s = "E+10Msun/h" -> Div(Num("1.989e43"), h) [] OTHER -> x
VelCms(s, x) == IF s = "km/s" THEN Num("1e5") ELSE x
\* the state of the specification: what the units are in cm, g and cm/s, and the little h in force
Units(st) == <<LenCm(st.names[1], st.h, st.nums[1]), MassG(st.names[2], st.h, st.nums[2]), VelCms(st.names[3], st.nums[3])>>
Step(u, st) == IF ~WellFormed(st) \/ st.fn \notin UnitFns THEN u
               ELSE IF st.fn = "in" THEN [u EXCEPT !.inn = Units(st), !.h = st.h] ELSE [u EXCEPT !.out = Units(st), !.h = st.h]
Internal(h) == <<LenCm("Mpc/h", h, Zero), MassG("E+10Msun/h", h, Zero), Num("1e5")>>
Conv(u) == LET k == Internal(u.h) IN <<Div(k[1], u.out[1]), Div(k[2], u.out[2]), Div(k[3], u.out[3]),
                                       Div(u.inn[1], k[1]), Div(u.inn[2], k[2]), Div(u.inn[3], k[3])>>
Fails(st, before, u) ==
  LET ok == WellFormed(st) IN
  {c \in {"refused", "served", "units", "files", "data", "kind"} :
     CASE c = "refused" -> ok /\ ~st.served         \* a well-formed request is refused
       [] c = "served" -> ~ok /\ st.served          \* a faulty one is served
       [] c = "units" -> LET v == Conv(u) IN \E i \in 1..6 : ~NearRel(st.world.conv[i], v[i], Tol)
       [] c = "files" -> IF ok /\ Writes(st.fn) THEN ~(Range(before.files) \subseteq Range(st.world.files)) ELSE before.files # st.world.files
       [] c = "data" -> before.data # st.world.data
       [] OTHER -> FALSE}
VARIABLES i, j, u
Session == Cases[i]
Start == [inn |-> Internal(Session.h), out |-> Internal(Session.h), h |-> Session.h]
Init == \E k \in DOMAIN Cases : i = k /\ j = 0 /\ u = <<>>
Begin == j = 0 /\ j' = 1 /\ u' = Start /\ UNCHANGED i
Verdict(f, st) == IF f = {} THEN "OK" ELSE st.fn \o ": " \o (IF "served" \in f THEN "faulty request served " ELSE "") \o (IF "refused" \in f THEN "good request refused " ELSE "")
                  \o (IF "units" \in f THEN "units " ELSE "") \o (IF "files" \in f THEN "files " ELSE "") \o (IF "data" \in f THEN "data " ELSE "")
Go == /\ j > 0 /\ j <= Len(Session.steps)
      /\ \E st \in {Session.steps[j]} : \E v \in {Step(u, st)} :
           /\ PrintT("R|" \o ToString(st.id) \o "|" \o Verdict(Fails(st, IF j = 1 THEN Session.world ELSE Session.steps[j - 1].world, v), st))
           /\ u' = v
      /\ j' = j + 1 /\ UNCHANGED i
Next == Begin \/ Go
Spec == Init /\ [][Next]_<<i, j, u>>
=============================================================================
