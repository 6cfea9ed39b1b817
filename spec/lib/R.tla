--------------------------------- MODULE R ---------------------------------
(* IEEE-754 binary64 arithmetic for TLC.

   A real is the pair <<hi, lo>> of the two 32-bit halves of its bit pattern, so that values
   compare, hash and print like any other TLA+ value.  The operators below are given meaning by
   the Java class R (R.java, compiled next to this module), which TLC loads in place of the
   definitions; the definitions say what is computed, in terms of the value Val(x) denoted by the
   pair.  Comparisons involving NaN are FALSE, as in IEEE-754.                                  *)
EXTENDS Integers, Sequences

Num(s)      == CHOOSE r \in {} : TRUE   \* s: decimal literal, e.g. Num("0.83"); "nan" and "inf" too
FromInt(n)  == CHOOSE r \in {} : TRUE
Frac(n, m)  == CHOOSE r \in {} : TRUE   \* n/m
Add(a, b)   == CHOOSE r \in {} : TRUE
Sub(a, b)   == CHOOSE r \in {} : TRUE
Mul(a, b)   == CHOOSE r \in {} : TRUE
Div(a, b)   == CHOOSE r \in {} : TRUE
RNeg(a)      == CHOOSE r \in {} : TRUE
Abs(a)      == CHOOSE r \in {} : TRUE
Sqrt(a)     == CHOOSE r \in {} : TRUE
Exp(a)      == CHOOSE r \in {} : TRUE
Log(a)      == CHOOSE r \in {} : TRUE
Pow(a, b)   == CHOOSE r \in {} : TRUE
Min2(a, b)  == CHOOSE r \in {} : TRUE
Max2(a, b)  == CHOOSE r \in {} : TRUE
Floor(a)    == CHOOSE r \in {} : TRUE   \* integer part as a TLA+ integer
Lt(a, b)    == CHOOSE r \in {} : TRUE
Le(a, b)    == CHOOSE r \in {} : TRUE
Eq(a, b)    == CHOOSE r \in {} : TRUE
IsNaN(a)    == CHOOSE r \in {} : TRUE
Show(a)     == CHOOSE r \in {} : TRUE   \* decimal string, for messages
Float32(a)  == CHOOSE r \in {} : TRUE   \* nearest binary32 value
SumSeq(s)   == CHOOSE r \in {} : TRUE   \* sum of a sequence of reals, in order
Dot(s, t)   == CHOOSE r \in {} : TRUE   \* sum of products of two sequences of reals
\* Near(a, b, tol): |a-b| <= tol*max(1,|a|,|b|), or both NaN, or equal (infinities)
Near(a, b, tol)    == CHOOSE r \in {} : TRUE
\* NearRel(a, b, tol): |a-b| <= tol*max(|a|,|b|), or both NaN, or equal
NearRel(a, b, tol) == CHOOSE r \in {} : TRUE

Zero == FromInt(0)
One  == FromInt(1)
Two  == FromInt(2)
NaN  == Num("nan")
Sq(a) == Mul(a, a)
Ge(a, b) == Le(b, a)
Gt(a, b) == Lt(b, a)
=============================================================================
