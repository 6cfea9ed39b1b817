---------------------------- MODULE SamplingTrace ----------------------------
(* Recorded samples.  Case:
   [what = "ball", axes, n, x, nb, gotnb]                        drawUniformFromEllipsoid
   [what = "shell", axes, inner, similar, f, n, x]               drawUniformFromShell
   [what = "member", axes (all), k, x, got]                      inShell
   [what = "fib", axes, n, x]                                    fibonacci_sphere, fibonacci_ellipsoid *)
EXTENDS Sampling, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Clause(ok, name) == IF ok THEN <<>> ELSE <<name>>
Shape(c) == Clause(Len(c.x) = c.n, "number") \o Clause(\A k \in 1..Len(c.x) : Len(c.x[k]) = Len(c.axes), "dimension")
Eps == Num("1e-9")
Ball(c) == LET zs == [k \in 1..Len(c.x) |-> InBall(c.x[k], c.axes)] d == Len(c.axes)
           IN  Clause(\A k \in 1..Len(c.x) : Within(c.x[k], c.axes, Eps), "inside")
               \o Clause(c.nb = c.gotnb, "ellipsoid-number")
               \o Clause(c.n < 100 \/ DirectionsFair(zs, d), "directions")
               \o Clause(c.n < 100 \/ RadiiFair(zs, d), "radii")
Shell(c) == LET zs == [k \in 1..Len(c.x) |-> InBall(c.x[k], c.axes)] d == Len(c.axes)
            IN  Clause(\A k \in 1..Len(c.x) : Within(c.x[k], c.axes, Eps), "inside")
                \o Clause(c.inner = <<>> \/ \A k \in 1..Len(c.x) : Lt(Sub(One, Eps), Norm2(InBall(c.x[k], c.inner))), "outside-the-inner")
                \o Clause(c.n < 100 \/ Octants(c.x, d), "octants")
                \o (IF c.similar /\ c.n >= 100
                    THEN Clause(DirectionsFair(zs, d), "directions")
                         \o Clause(ShellVolume(zs, d, c.f) \/ ShellDepth(zs, c.f), "depth")
                         \o Clause(ShellVolume(zs, d, c.f), "shell-volume")
                    ELSE <<>>)
Fib(c) == LET ps == [k \in 1..Len(c.x) |-> InBall(c.x[k], c.axes)]
          IN  Clause(OnSphere(ps), "on-the-surface") \o Clause(Spread(ps), "spread")
Failed(c) == LET s == IF c.what = "member" THEN <<>> ELSE Shape(c)
             IN  IF s # <<>> THEN s
                 ELSE CASE c.what = "ball" -> Ball(c) [] c.what = "shell" -> Shell(c) [] c.what = "fib" -> Fib(c)
                        [] OTHER -> Clause(c.got = InShell(c.x, c.axes, c.k), "membership")
Text(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "," \o b, "", s)
Judge == /\ ~done /\ done' = TRUE /\ i' = i
         /\ \E f \in {TLCEval(Failed(Cases[i]))} : PrintT("R|" \o ToString(i) \o "|" \o IF f = <<>> THEN "OK" ELSE Cases[i].what \o ": " \o Text(f))
Spec == Init /\ [][Judge]_<<i, done>>
===============================================================================
