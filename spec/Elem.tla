-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* Elementary functions, to a precision far beyond that of a DOUBLE, in    *)
(* fixed-point arithmetic on natural numbers of any size.  A fixed-point   *)
(* number with P fraction bits is <<neg, n>> for (-1)^neg * n / 2^P.       *)
(*                                                                         *)
(* The implementation relies on the C library, whose results need not be   *)
(* correctly rounded; ElemAgrees allows ElemUlps units in the last place.  *)
(***************************************************************************)
EXTENDS Floats

ElemUlps == 8
Prec == 160      \* fraction bits

FxNeg(a) == <<~a[1], a[2]>>
FxAdd(a, b) == TLCEval(SNatAdd(a[1], a[2], b[1], b[2]))
FxSub(a, b) == TLCEval(SNatAdd(a[1], a[2], ~b[1], b[2]))
FxMul(a, b, P) == TLCEval(<<a[1] /= b[1], NatShr(NatMul(a[2], b[2]), P)>>)
FxDiv(a, b, P) == TLCEval(<<a[1] /= b[1], NatDiv(NatShl(a[2], P), b[2])>>)
FxDivInt(a, n) == TLCEval(<<a[1], NatDiv(a[2], NatOf(n))>>)
FxOne(P) == <<FALSE, NatPow2(P)>>
FxSqrt(a, P) == TLCEval(<<FALSE, NatSqrt(NatShl(a[2], P))>>)
FxHalf(a) == TLCEval(<<a[1], NatShr(a[2], 1)>>)
FxDouble(a) == TLCEval(<<a[1], NatShl(a[2], 1)>>)
FxLess(a, b) == LET d == FxSub(a, b) IN d[1] /\ d[2] /= <<>>

\* A finite DOUBLE as fixed point (exact when P is large enough)
FxOf(x, P) ==
  LET k == FPow(F64, x) + P
  IN TLCEval(<<FNeg(x), IF k >= 0 THEN NatShl(FSig(F64, x), k) ELSE NatShr(FSig(F64, x), 0 - k)>>)

\* Sum of y^(2i+1)/(2i+1), alternating or not: atan or atanh of small y
FxNil == <<FALSE, <<>>>>
AtanSum(y, y2, alt, P) ==
  LET step(d) ==
        LET t == FxDivInt(d.pow, 2 * d.i + 1)
        IN TLCEval([pow |-> FxMul(d.pow, y2, P), i |-> d.i + 1,
                    acc |-> IF alt /\ d.i % 2 = 1 THEN FxSub(d.acc, t) ELSE FxAdd(d.acc, t)])
  IN Iterate(LAMBDA d : d.pow[2] # <<>>, step, [pow |-> y, i |-> 0, acc |-> FxNil]).acc
AtanSeries(y, P)  == AtanSum(y, FxMul(y, y, P), TRUE, P)
AtanhSeries(y, P) == AtanSum(y, FxMul(y, y, P), FALSE, P)

FxRatio(a, b, P) == FxDiv(<<FALSE, NatShl(NatOf(a), P)>>, <<FALSE, NatShl(NatOf(b), P)>>, P)

\* Constants with ElemBits fraction bits, shortened to P where they are used
ElemBits == 1600
Pi0 == LET a == AtanSeries(FxRatio(1, 5, ElemBits), ElemBits)
           b == AtanSeries(FxRatio(1, 239, ElemBits), ElemBits)
       IN FxSub(<<FALSE, NatMul(<<16>>, a[2])>>, <<FALSE, NatMul(<<4>>, b[2])>>)
Ln20 == FxDouble(AtanhSeries(FxRatio(1, 3, ElemBits), ElemBits))
Atan140 == AtanSeries(FxRatio(1, 4, ElemBits), ElemBits)
Atan120 == FxSub(FxHalf(FxHalf(Pi0)), AtanSeries(FxRatio(1, 3, ElemBits), ElemBits))   \* pi/4 - atan(1/3)
Atan340 == FxSub(FxHalf(FxHalf(Pi0)), AtanSeries(FxRatio(1, 7, ElemBits), ElemBits))   \* pi/4 - atan(1/7)
Cut(c, P) == TLCEval(<<c[1], NatShr(c[2], ElemBits - P)>>)
Pi(P) == Cut(Pi0, P)
Ln2(P) == Cut(Ln20, P)

\* e^y for small y
ExpSum(y, P) ==
  LET step(d) == TLCEval([term |-> FxDivInt(FxMul(d.term, y, P), d.i), i |-> d.i + 1, acc |-> FxAdd(d.acc, d.term)])
  IN Iterate(LAMBDA d : d.term[2] # <<>>, step, [term |-> FxOne(P), i |-> 1, acc |-> FxNil]).acc
\* e^y = 2^k * f: <<k, f>>
ExpParts(y, P) ==
  LET l == Ln2(P)
      q == TLCEval(NatToInt(NatDiv(y[2], l[2])))
      r == TLCEval(<<FALSE, NatSub(y[2], NatMul(NatOf(q), l[2]))>>)     \* |y| - q ln 2, in [0, ln 2)
  IN TLCEval(IF y[1] THEN <<0 - q, ExpSum(FxNeg(r), P)>>
             ELSE <<q, ExpSum(r, P)>>)
FxExp(y, P) ==
  LET e == ExpParts(y, P)
  IN TLCEval(<<FALSE, IF e[1] >= 0 THEN NatShl(e[2][2], e[1]) ELSE NatShr(e[2][2], 0 - e[1])>>)

\* Alternating series of y^i/i! for i = i0, i0 + 2, ...: cosine (i0 = 0) and sine (i0 = 1)
TrigSum(term0, y2, i0, P) ==
  LET step(d) == TLCEval([term |-> FxDivInt(FxDivInt(FxMul(d.term, y2, P), d.i + 1), d.i + 2), i |-> d.i + 2, neg |-> ~d.neg,
                          acc |-> IF d.neg THEN FxSub(d.acc, d.term) ELSE FxAdd(d.acc, d.term)])
  IN Iterate(LAMBDA d : d.term[2] # <<>>, step, [term |-> term0, i |-> i0, neg |-> FALSE, acc |-> FxNil]).acc
FxSinSmall(y, P) == TrigSum(y, FxMul(y, y, P), 1, P)
FxCosSmall(y, P) == TrigSum(FxOne(P), FxMul(y, y, P), 0, P)

\* y = q * pi/2 + r with 0 <= r < pi/2, for y >= 0: <<q mod 4, r>>
Reduce(y, P) ==
  LET h == FxHalf(Pi(P))
      q == TLCEval(NatDiv(y[2], h[2]))
  IN TLCEval(<<NatToInt(NatLow(q, 2)), <<FALSE, NatSub(y[2], NatMul(q, h[2]))>>>>)

\* The sine of quadrant q plus r: computed on the nearer side of the quadrant
Quad(q, r, P) ==
  LET s == CASE q = 0 -> FxSinSmall(r, P)
             [] q = 1 -> FxCosSmall(r, P)
             [] q = 2 -> FxNeg(FxSinSmall(r, P))
             [] q = 3 -> FxNeg(FxCosSmall(r, P))
  IN TLCEval(s)

FxAtan01(y, P) ==     \* 0 <= y <= 1
  LET At1(c, cc) == LET d == FxDiv(FxSub(y, c), FxAdd(FxOne(P), FxMul(c, y, P)), P)
                    IN FxAdd(cc, AtanSeries(d, P))
      e == NatShr(y[2], P - 3)         \* eighths
      n == NatToInt(e)
  IN IF n = 0 THEN AtanSeries(y, P)
     ELSE IF n <= 2 THEN At1(FxRatio(1, 4, P), Cut(Atan140, P))
     ELSE IF n <= 4 THEN At1(FxRatio(1, 2, P), Cut(Atan120, P))
     ELSE IF n <= 6 THEN At1(FxRatio(3, 4, P), Cut(Atan340, P))
     ELSE At1(FxOne(P), FxHalf(FxHalf(Pi(P))))

\* atan(a / b) for a, b >= 0, not both 0
FxAtan2(a, b, P) ==
  IF FxLess(b, a) THEN FxSub(FxHalf(Pi(P)), FxAtan01(FxDiv(b, a, P), P))
  ELSE FxAtan01(FxDiv(a, b, P), P)

\* Exponent of the leading bit of a finite nonzero DOUBLE
FTop(x) == NatBits(FSig(F64, x)) + FPow(F64, x) - 1

ToF64(neg, y, P) == FRound(F64, neg /= y[1], y[2], 0 - P, TRUE)

(***************************************************************************)
(* The value of function f at x, rounded to nearest, for finite nonzero x  *)
(* inside the domain.                                                      *)
(***************************************************************************)
SinCosTan(f, x) ==
  LET t == FTop(x)
      P == IF t >= 0 THEN Prec ELSE Prec - 3 * t
      Pe == IF P > ElemBits - 8 THEN ElemBits - 8 ELSE P
      Pr == IF t >= 0 THEN (IF t + Prec + 30 < 1500 THEN t + Prec + 30 ELSE 1500) ELSE Pe
      r0 == Reduce(<<FALSE, FxOf(x, Pr)[2]>>, Pr)
      \* back to fewer bits
      r == <<r0[1], TLCEval(<<FALSE, NatShr(r0[2][2], Pr - (IF t >= 0 THEN Prec ELSE Pr))>>)>>
      Q == IF t >= 0 THEN Prec ELSE Pr
      s == Quad(r[1], r[2], Q)
      c == Quad((r[1] + 1) % 4, r[2], Q)
  IN IF t < -450 THEN (IF f = 8 THEN FMake(F64, FALSE, FBias(F64), <<>>) ELSE x)
     ELSE CASE f = 7 -> ToF64(FNeg(x), s, Q)
            [] f = 8 -> ToF64(FALSE, c, Q)
            [] f = 9 -> ToF64(FNeg(x), FxDiv(s, c, Q), Q)

ArcFun(f, x) ==
  LET t == FTop(x)
      P == IF t >= 0 THEN Prec ELSE Prec - 2 * t
      y == <<FALSE, FxOf(x, P)[2]>>
      one == FxOne(P)
      sq == FxSqrt(FxMul(FxSub(one, y), FxAdd(one, y), P), P)
  IN IF t < -450 /\ f \in {10, 12} THEN x
     ELSE IF t < -450 THEN ToF64(FALSE, FxHalf(Pi(Prec)), Prec)
     ELSE IF f = 12 /\ t > 200 THEN ToF64(FNeg(x), FxHalf(Pi(Prec)), Prec)
     ELSE CASE f = 10 -> ToF64(FNeg(x), FxAtan2(y, sq, P), P)
            [] f = 11 -> (IF FNeg(x) THEN ToF64(FALSE, FxSub(Pi(P), FxAtan2(sq, y, P)), P)
                          ELSE ToF64(FALSE, FxAtan2(sq, y, P), P))
            [] f = 12 -> ToF64(FNeg(x), FxAtan2(y, one, P), P)

HypFun(f, x) ==
  LET t == FTop(x)
      P == IF t >= 0 THEN Prec ELSE Prec - 3 * t
      y == <<FALSE, FxOf(x, P)[2]>>
      e == FxExp(y, P)
      g == FxDiv(FxOne(P), e, P)
      sh == FxHalf(FxSub(e, g))
      ch == FxHalf(FxAdd(e, g))
  IN IF t < -400 THEN (IF f = 14 THEN FMake(F64, FALSE, FBias(F64), <<>>) ELSE x)
     ELSE IF t >= 10 THEN (CASE f = 13 -> FInf(F64, FNeg(x))
                             [] f = 14 -> FInf(F64, FALSE)
                             [] f = 15 -> FMake(F64, FNeg(x), FBias(F64), <<>>))
     ELSE CASE f = 13 -> ToF64(FNeg(x), sh, P)
            [] f = 14 -> ToF64(FALSE, ch, P)
            [] f = 15 -> ToF64(FNeg(x), FxDiv(sh, ch, P), P)

ExpFun(x) ==
  LET t == FTop(x)
      P == Prec
      e == ExpParts(FxOf(x, P), P)
  IN IF t >= 11 THEN (IF FNeg(x) THEN FZero(F64, FALSE) ELSE FInf(F64, FALSE))
     ELSE FRound(F64, FALSE, e[2][2], e[1] - P, TRUE)

LogFun(x) ==
  LET P == Prec
      m == FSig(F64, x)
      b == NatBits(m)
      f0 == <<FALSE, NatShl(m, P - b)>>             \* in [1/2, 1)
      k0 == FPow(F64, x) + b
      small == FxLess(f0, FxRatio(3, 4, P))
      f == IF small THEN FxDouble(f0) ELSE f0        \* in [3/4, 3/2)
      k == IF small THEN k0 - 1 ELSE k0
      y == FxDiv(FxSub(f, FxOne(P)), FxAdd(f, FxOne(P)), P)
      l == FxDouble(AtanhSeries(y, P))
      kl == IF k < 0 THEN <<TRUE, NatMul(NatOf(0 - k), Ln2(P)[2])>> ELSE <<FALSE, NatMul(NatOf(k), Ln2(P)[2])>>
      v == FxAdd(kl, l)
  IN IF v[2] = <<>> THEN FZero(F64, FALSE) ELSE ToF64(FALSE, v, P)

F64One == FMake(F64, FALSE, FBias(F64), <<>>)

ElemValue(f, x) ==
  IF FIsNaN(F64, x) THEN FNaN(F64)
  ELSE IF FIsInf(F64, x)
  THEN CASE f \in {7, 8, 9, 10, 11} -> FNaN(F64)
         [] f = 12 -> ToF64(FNeg(x), FxHalf(Pi(Prec)), Prec)
         [] f = 13 -> x
         [] f = 14 -> FInf(F64, FALSE)
         [] f = 15 -> FMake(F64, FNeg(x), FBias(F64), <<>>)
         [] f = 16 -> IF FNeg(x) THEN FZero(F64, FALSE) ELSE x
         [] f = 17 -> IF FNeg(x) THEN FNaN(F64) ELSE x
  ELSE IF FIsZero(F64, x)
  THEN CASE f \in {7, 9, 10, 12, 13, 15} -> x
         [] f \in {8, 14, 16} -> F64One
         [] f = 11 -> ToF64(FALSE, FxHalf(Pi(Prec)), Prec)
         [] f = 17 -> FInf(F64, TRUE)
  ELSE CASE f \in {7, 8, 9} -> SinCosTan(f, x)
         [] f \in {10, 11} ->
              IF FCmp(F64, FAbs(F64, x), F64One) = 1 THEN FNaN(F64)
              ELSE IF FAbs(F64, x) = F64One
                   THEN (CASE f = 10 -> ToF64(FNeg(x), FxHalf(Pi(Prec)), Prec)
                           [] f = 11 -> IF FNeg(x) THEN ToF64(FALSE, Pi(Prec), Prec) ELSE FZero(F64, FALSE))
              ELSE ArcFun(f, x)
         [] f = 12 -> ArcFun(f, x)
         [] f \in {13, 14, 15} -> HypFun(f, x)
         [] f = 16 -> ExpFun(x)
         [] f = 17 -> IF FNeg(x) THEN FNaN(F64) ELSE LogFun(x)

\* Distance of two numbers that are not NaN in units in the last place, at most `most`
ElemClose(a, b, most) ==
  LET d == IF FNeg(a) = FNeg(b)
           THEN SNatAdd(FALSE, NatNorm(a), TRUE, NatNorm(b))[2]
           ELSE NatAdd(NatNorm(FAbs(F64, a)), NatNorm(FAbs(F64, b)))
  IN NatCmp(d, NatOf(most)) <= 0

\* Is y an acceptable value of function f at x?  Zeros of an odd function keep their sign.
ElemAgrees(f, x, y) ==
  LET v == ElemValue(f, x)
  IN IF FIsNaN(F64, v) THEN FIsNaN(F64, y)
     ELSE /\ ~FIsNaN(F64, y)
          /\ FIsInf(F64, v) => FIsInf(F64, y) \/ ElemClose(v, y, ElemUlps)
          /\ FIsZero(F64, x) => (v = y \/ ~FIsZero(F64, v))
          /\ ElemClose(v, y, ElemUlps)
=============================================================================
