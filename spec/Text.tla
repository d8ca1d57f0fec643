-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text written for people: names of types, and operands as a C++ stream   *)
(* prints them (numbers with six significant digits).                      *)
(***************************************************************************)
EXTENDS Calc

Asc(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]
Zeros(n) == [i \in 1..n |-> 0]
Minus(neg) == IF neg THEN <<45>> ELSE <<>>

\* The names of the types: INT32, INT64, BOOL, FLOAT, DOUBLE, DECIMAL, STRING, UNKNOWN
TypeText(t) ==
  CASE t = TInt32 -> <<73, 78, 84, 51, 50>>
    [] t = TInt64 -> <<73, 78, 84, 54, 52>>
    [] t = TBool -> <<66, 79, 79, 76>>
    [] t = TFloat -> <<70, 76, 79, 65, 84>>
    [] t = TDouble -> <<68, 79, 85, 66, 76, 69>>
    [] t = TDecimal -> <<68, 69, 67, 73, 77, 65, 76>>
    [] t = TString -> <<83, 84, 82, 73, 78, 71>>
    [] OTHER -> <<85, 78, 75, 78, 79, 87, 78>>

(***************************************************************************)
(* Decimal digits and exponent of a finite number: its exact value is      *)
(* d[1].d[2]d[3]... * 10^x.  A power 2^-k is 5^k * 10^-k.                  *)
(***************************************************************************)
Decimal(F, a) ==
  LET p == FPow(F, a)
      m == FSig(F, a)
      d == TLCEval(NatDec(IF p >= 0 THEN NatShl(m, p) ELSE NatMul(m, NatPow(<<5>>, 0 - p))))
  IN TLCEval(<<d, Len(d) - 1 + (IF p >= 0 THEN 0 ELSE p)>>)

\* Rounded to n digits, ties to even
RoundDigits(d, x, n) ==
  IF Len(d) <= n THEN <<d \o Zeros(n - Len(d)), x>>
  ELSE LET up == \/ d[n + 1] > 5
                 \/ d[n + 1] = 5 /\ (d[n] % 2 = 1 \/ \E i \in (n + 2)..Len(d) : d[i] # 0)
           r == TLCEval(NatAdd(NatOfDec(SubSeq(d, 1, n)), IF up THEN <<1>> ELSE <<>>))
           e == TLCEval(NatDec(r))
       IN IF Len(e) > n THEN <<SubSeq(e, 1, n), x + 1>> ELSE <<e, x>>

Bare(d) == IF \A i \in 1..Len(d) : d[i] = 0 THEN <<>> ELSE StripZeros(d)
Fraction(d) == LET f == Bare(d) IN IF f = <<>> THEN <<>> ELSE <<46>> \o Asc(f)

\* As the %g format prints it
FShort(F, a) ==
  IF FIsInf(F, a) THEN Minus(FNeg(a)) \o <<105, 110, 102>>
  ELSE IF FIsZero(F, a) THEN Minus(FNeg(a)) \o <<48>>
  ELSE LET v == Decimal(F, a)
           r == TLCEval(RoundDigits(v[1], v[2], 6))
           d == r[1]
           x == r[2]
           e == IF x < 0 THEN 0 - x ELSE x
           et == (IF e < 10 THEN <<48>> ELSE <<>>) \o Asc(NatDec(NatOf(e)))
       IN Minus(FNeg(a)) \o
          (IF x < -4 \/ x >= 6 THEN <<48 + d[1]>> \o Fraction(Tail(d)) \o <<101, IF x < 0 THEN 45 ELSE 43>> \o et
           ELSE IF x < 0 THEN <<48>> \o Fraction(Zeros(0 - x - 1) \o d)
           ELSE Asc(SubSeq(d, 1, x + 1)) \o Fraction(SubSeq(d, x + 2, 6)))

\* May an operand be printed like this?  Text for NaN and for lists is not specified.
TextOk(v, text) ==
  CASE v = Null -> text = <<40, 110, 117, 108, 108, 41>>      \* (null)
    [] IsInt(v[1]) -> text = IntDec(v[2])
    [] v[1] = TBool -> text = <<48 + v[2][1]>>
    [] IsFloat(v[1]) -> FIsNaN(Fmt(v[1]), v[2]) \/ text = FShort(Fmt(v[1]), v[2])
    [] v[1] = TString -> text = v[2]
    [] OTHER -> TRUE
=============================================================================
