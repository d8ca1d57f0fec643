------------------------------ MODULE MC_Order ------------------------------
(***************************************************************************)
(* Comparison: the six relations, MIN and MAX of every type are those of   *)
(* one order, which is total but for NaN.  Strings of up to two characters *)
(* of the alphabet, floats of every class, integers around the limits.     *)
(***************************************************************************)
EXTENDS Calc, FiniteSets

Alphabet == {0, 65, 97, 127, 128, 255}
Strings == {<<>>} \cup {<<x>> : x \in Alphabet} \cup {<<x, y>> : x \in Alphabet, y \in Alphabet}
Bits(F) == {FZero(F, FALSE), FZero(F, TRUE), FInf(F, FALSE), FInf(F, TRUE), FNaN(F)}
SmallF(F) == {FOfInt(F, IntOf(n, 4)) : n \in {1, -1, 3, 16777216, 16777217, -7}} \cup
             {FMake(F, g, e, <<1>>) : g \in BOOLEAN, e \in {0, 1, 2}}
Sample == [t \in 1..7 |->
  CASE t = 1 -> {I32(IntOf(n, 4)) : n \in {0, 1, -1, 2, 127, 128, 255, 256, 65535, 65536, -128, -256, 2147483647}} \cup {I32(IntMin(4))}
    [] t = 2 -> {I64(IntOf(n, 8)) : n \in {0, 1, -1, 255, 256, -256, 2147483647}} \cup
                {I64(IntMin(8)), I64(IntMax(8)), I64(<<0, 0, 0, 0, 1, 0, 0, 0>>), I64(<<0, 0, 0, 128, 0, 0, 0, 0>>), I64(<<1, 0, 0, 0, 0, 0, 0, 128>>)}
    [] t = 3 -> {True, False}
    [] t = 4 -> {F32V(x) : x \in Bits(F32) \cup SmallF(F32)}
    [] t = 5 -> {F64V(x) : x \in Bits(F64) \cup SmallF(F64)}
    [] t = 7 -> {Str(x) : x \in Strings}
    [] OTHER -> {}]

VARIABLES t, a, b
Init == t \in Scalar /\ a \in Sample[t] /\ b \in Sample[t]
Next == FALSE
Spec == Init /\ [][Next]_<<t, a, b>>

R(n, x, y) == Apply(n, t, <<x, y>>) = True
NaN(x) == IsFloat(t) /\ FIsNaN(Fmt(t), x[2])

Relations ==
  /\ R("ne", a, b) = ~R("eq", a, b)
  /\ R("gt", a, b) = R("lt", b, a) /\ R("ge", a, b) = R("le", b, a)
  /\ R("le", a, b) = (R("lt", a, b) \/ R("eq", a, b))
  /\ R("eq", a, b) = R("eq", b, a)
  /\ (NaN(a) \/ NaN(b)) => ~R("lt", a, b) /\ ~R("gt", a, b) /\ ~R("eq", a, b)
  /\ (~NaN(a) /\ ~NaN(b)) => Cardinality({n \in {"lt", "eq", "gt"} : R(n, a, b)}) = 1
  /\ \A n \in RelOps : Apply(n, t, <<a, b>>) \in {True, False}

\* By the sign of the difference where there is one, by position otherwise
Meaning ==
  /\ IsInt(t) => (R("lt", a, b) = IntIsNeg(IntSub(IntResize(a[2], 9), IntResize(b[2], 9))))
  /\ (IsFloat(t) /\ FIsFin(Fmt(t), a[2]) /\ FIsFin(Fmt(t), b[2])) =>
       LET d == FSub(Fmt(t), a[2], b[2]) IN R("lt", a, b) = (FNeg(d) /\ ~FIsZero(Fmt(t), d))
  /\ t = 7 => R("lt", a, b) =
       (\E n \in 0..2 : /\ n <= Len(a[2]) /\ n < Len(b[2]) /\ SubSeq(a[2], 1, n) = SubSeq(b[2], 1, n)
                        /\ (n = Len(a[2]) \/ a[2][n + 1] < b[2][n + 1]))
  /\ t = 3 => R("lt", a, b) = (a = False /\ b = True)
  /\ ~IsFloat(t) => R("eq", a, b) = (a = b)

Transitive ==
  \A c \in Sample[t] : /\ (R("lt", a, b) /\ R("lt", b, c)) => R("lt", a, c)
                       /\ (R("eq", a, b) /\ R("eq", b, c)) => R("eq", a, c)
                       /\ (R("eq", a, b) /\ R("lt", b, c)) => R("lt", a, c)

Extremes ==
  LET lo == Apply("min", t, <<a, b>>)
      hi == Apply("max", t, <<a, b>>)
  IN /\ lo \in {a, b} /\ hi \in {a, b}
     /\ (~NaN(a) /\ ~NaN(b)) => R("le", lo, a) /\ R("le", lo, b) /\ R("ge", hi, a) /\ R("ge", hi, b)
     /\ (~NaN(a) /\ ~NaN(b) /\ ~R("eq", a, b)) => {lo, hi} = {a, b}
=============================================================================
