------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* IEEE 754 binary floating point, parametric in the format: F.eb bits of  *)
(* exponent and F.mb bits of fraction.  A number is the sequence of its    *)
(* bytes, least significant first.  All results are defined by exact       *)
(* arithmetic on (sign, natural significand, power of two) followed by one *)
(* rounding to nearest, ties to even.  MC_Floats checks these definitions  *)
(* exhaustively on a one-byte format against "the nearest representable".  *)
(***************************************************************************)
EXTENDS Ints

F32 == [eb |-> 8,  mb |-> 23]
F64 == [eb |-> 11, mb |-> 52]
F8  == [eb |-> 3,  mb |-> 4]      \* only for exhaustive checks of this module

FBytes(F) == (1 + F.eb + F.mb) \div 8
FBias(F)  == 2 ^ (F.eb - 1) - 1
FEMax(F)  == 2 ^ F.eb - 1          \* exponent field of infinities and NaN

\* Fields
FNeg(a) == a[Len(a)] >= 128
FExp(F, a) == NatToInt(NatLow(NatShr(NatNorm(a), F.mb), F.eb))
FFrac(F, a) == NatLow(NatNorm(a), F.mb)

FMake(F, neg, e, frac) ==
  NatPad(NatAdd(NatShl(NatAdd(NatShl(IF neg THEN <<1>> ELSE <<>>, F.eb), NatOf(e)), F.mb), frac), FBytes(F))

FZero(F, neg) == FMake(F, neg, 0, <<>>)
FInf(F, neg)  == FMake(F, neg, FEMax(F), <<>>)

\* The result of an invalid operation is some NaN: all bits set stands for it.
FNaN(F) == [i \in 1..FBytes(F) |-> 255]

FIsNaN(F, a)  == FExp(F, a) = FEMax(F) /\ FFrac(F, a) /= <<>>
FIsInf(F, a)  == FExp(F, a) = FEMax(F) /\ FFrac(F, a) = <<>>
FIsZero(F, a) == FExp(F, a) = 0 /\ FFrac(F, a) = <<>>
FIsFin(F, a)  == FExp(F, a) /= FEMax(F)

\* The finite number a is (-1)^FNeg(a) * FSig * 2^FPow
FSig(F, a) == IF FExp(F, a) = 0 THEN FFrac(F, a) ELSE NatAdd(NatPow2(F.mb), FFrac(F, a))
FPow(F, a) == (IF FExp(F, a) = 0 THEN 1 ELSE FExp(F, a)) - FBias(F) - F.mb

(***************************************************************************)
(* Rounds the exact value (-1)^neg * (m + d) * 2^p, where 0 <= d < 1 and   *)
(* d > 0 iff `sticky`, m natural.                                          *)
(***************************************************************************)
FRound(F, neg, m, p, sticky) ==
  IF m = <<>> /\ ~sticky THEN FZero(F, neg)
  ELSE
    LET pmin == 1 - FBias(F) - F.mb                     \* exponent of the smallest subnormal
        q0   == p + NatBits(m) - (F.mb + 1)             \* exponent that leaves mb + 1 bits
        q    == IF q0 < pmin THEN pmin ELSE q0
        k    == q - p                                   \* number of bits to drop
        n0   == TLCEval(IF k <= 0 THEN NatShl(m, 0 - k) ELSE NatShr(m, k))
        rem  == IF k <= 0 THEN <<>> ELSE NatLow(m, k)
        half == IF k <= 0 THEN <<1>> ELSE NatPow2(k - 1)
        c    == NatCmp(rem, half)
        up   == k > 0 /\ (c > 0 \/ (c = 0 /\ (sticky \/ NatLow(n0, 1) /= <<>>)))
        n    == TLCEval(IF up THEN NatAdd(n0, <<1>>) ELSE n0)
        \* rounding up may carry into the next power of two
        ovf  == NatBits(n) > F.mb + 1
        nn   == TLCEval(IF ovf THEN NatShr(n, 1) ELSE n)
        qq   == IF ovf THEN q + 1 ELSE q
        e    == IF NatBits(nn) <= F.mb THEN 0 ELSE qq + FBias(F) + F.mb
    IN IF e >= FEMax(F) THEN FInf(F, neg) ELSE FMake(F, neg, e, NatLow(nn, F.mb))

FNegate(F, a) == IF FIsNaN(F, a) THEN FNaN(F) ELSE [a EXCEPT ![Len(a)] = IF @ >= 128 THEN @ - 128 ELSE @ + 128]
FAbs(F, a)    == IF FIsNaN(F, a) THEN FNaN(F) ELSE [a EXCEPT ![Len(a)] = IF @ >= 128 THEN @ - 128 ELSE @]

\* Exact sum of signed naturals: <<neg, m>>; an exact zero keeps `negzero`
SNatAdd(n1, m1, n2, m2) ==
  IF n1 = n2 THEN <<n1, NatAdd(m1, m2)>>
  ELSE IF NatCmp(m1, m2) >= 0 THEN <<n1, NatSub(m1, m2)>> ELSE <<n2, NatSub(m2, m1)>>

FAdd(F, a, b) ==
  IF FIsNaN(F, a) \/ FIsNaN(F, b) THEN FNaN(F)
  ELSE IF FIsInf(F, a) THEN (IF FIsInf(F, b) /\ FNeg(a) /= FNeg(b) THEN FNaN(F) ELSE a)
  ELSE IF FIsInf(F, b) THEN b
  ELSE LET pa == FPow(F, a)
           pb == FPow(F, b)
           p  == IF pa < pb THEN pa ELSE pb
           s  == TLCEval(SNatAdd(FNeg(a), NatShl(FSig(F, a), pa - p), FNeg(b), NatShl(FSig(F, b), pb - p)))
       IN IF s[2] = <<>> THEN FZero(F, FNeg(a) /\ FNeg(b)) ELSE FRound(F, s[1], s[2], p, FALSE)

FSub(F, a, b) == IF FIsNaN(F, b) THEN FNaN(F) ELSE FAdd(F, a, FNegate(F, b))

FMul(F, a, b) ==
  LET neg == FNeg(a) /= FNeg(b)
  IN IF FIsNaN(F, a) \/ FIsNaN(F, b) THEN FNaN(F)
     ELSE IF FIsInf(F, a) \/ FIsInf(F, b)
          THEN (IF FIsZero(F, a) \/ FIsZero(F, b) THEN FNaN(F) ELSE FInf(F, neg))
     ELSE FRound(F, neg, TLCEval(NatMul(FSig(F, a), FSig(F, b))), FPow(F, a) + FPow(F, b), FALSE)

FDiv(F, a, b) ==
  LET neg == FNeg(a) /= FNeg(b)
  IN IF FIsNaN(F, a) \/ FIsNaN(F, b) THEN FNaN(F)
     ELSE IF FIsInf(F, a) THEN (IF FIsInf(F, b) THEN FNaN(F) ELSE FInf(F, neg))
     ELSE IF FIsInf(F, b) THEN FZero(F, neg)
     ELSE IF FIsZero(F, b) THEN (IF FIsZero(F, a) THEN FNaN(F) ELSE FInf(F, neg))
     ELSE LET k  == 2 * F.mb + 4
              qr == TLCEval(NatDivMod(NatShl(FSig(F, a), k), FSig(F, b)))
          IN FRound(F, neg, qr[1], FPow(F, a) - FPow(F, b) - k, qr[2] /= <<>>)

\* -1, 0, 1, or 2 when unordered
FCmp(F, a, b) ==
  IF FIsNaN(F, a) \/ FIsNaN(F, b) THEN 2
  ELSE IF FIsZero(F, a) /\ FIsZero(F, b) THEN 0
  ELSE IF FNeg(a) /= FNeg(b) THEN (IF FNeg(a) THEN -1 ELSE 1)
  ELSE IF FNeg(a) THEN NatCmp(NatNorm(b), NatNorm(a)) ELSE NatCmp(NatNorm(a), NatNorm(b))

\* Conversions
FOfInt(F, a) == FRound(F, IntIsNeg(a), IntMag(a), 0, FALSE)
FConv(F, G, a) ==   \* from format F to format G
  IF FIsNaN(F, a) THEN FNaN(G)
  ELSE IF FIsInf(F, a) THEN FInf(G, FNeg(a))
  ELSE FRound(G, FNeg(a), FSig(F, a), FPow(F, a), FALSE)

\* The magnitude of a finite number rounded to an integer, half away from zero
FRoundHalfAway(F, a) ==
  LET p == FPow(F, a)
      m == FSig(F, a)
  IN IF p >= 0 THEN NatShl(m, p)
     ELSE NatShr(NatAdd(m, NatPow2(0 - p - 1)), 0 - p)

FCeilFloor(F, a, ceil) ==
  IF ~FIsFin(F, a) THEN (IF FIsNaN(F, a) THEN FNaN(F) ELSE a)
  ELSE IF FPow(F, a) >= 0 \/ FIsZero(F, a) THEN a
  ELSE LET k  == 0 - FPow(F, a)
           m  == FSig(F, a)
           t  == TLCEval(NatShr(m, k))
           up == NatLow(m, k) /= <<>> /\ ceil = ~FNeg(a)      \* away from zero
           n  == TLCEval(IF up THEN NatAdd(t, <<1>>) ELSE t)
       IN IF n = <<>> THEN FZero(F, FNeg(a)) ELSE FRound(F, FNeg(a), n, 0, FALSE)
FCeil(F, a)  == FCeilFloor(F, a, TRUE)
FFloor(F, a) == FCeilFloor(F, a, FALSE)

(***************************************************************************)
(* Decimal text of a finite number with up to k fraction digits: the exact *)
(* value rounded to k places (ties to even), trailing zeros removed, at    *)
(* least one fraction digit.                                               *)
(***************************************************************************)
\* without trailing zeros, but with at least one digit
StripZeros(d) == SubSeq(d, 1, Len(d) + 1 - SkipWhile(LAMBDA k : d[Len(d) + 1 - k] = 0, 1, Len(d) - 1))

FDecText(F, a, k) ==
  LET p   == FPow(F, a)
      s   == TLCEval(NatMul(FSig(F, a), NatPow(<<10>>, k)))        \* value * 10^k * 2^-p
      n0  == TLCEval(IF p >= 0 THEN NatShl(s, p) ELSE NatShr(s, 0 - p))
      rem == IF p >= 0 THEN <<>> ELSE NatLow(s, 0 - p)
      c   == IF p >= 0 THEN -1 ELSE NatCmp(rem, NatPow2(0 - p - 1))
      n   == TLCEval(IF c > 0 \/ (c = 0 /\ NatLow(n0, 1) /= <<>>) THEN NatAdd(n0, <<1>>) ELSE n0)
      d0  == TLCEval(NatDec(n))
      d   == TLCEval(IF Len(d0) <= k THEN [i \in 1..(k + 1 - Len(d0)) |-> 0] \o d0 ELSE d0)
      ip  == SubSeq(d, 1, Len(d) - k)
      fp  == TLCEval(StripZeros(SubSeq(d, Len(d) - k + 1, Len(d))))
      Asc(x) == [i \in 1..Len(x) |-> 48 + x[i]]
  IN (IF FNeg(a) THEN <<45>> ELSE <<>>) \o Asc(ip) \o <<46>> \o Asc(fp)

(***************************************************************************)
(* The number nearest to (-1)^neg * n * 10^x, n natural.                   *)
(***************************************************************************)
FOfDecimal(F, neg, n, x) ==
  IF n = <<>> THEN FZero(F, neg)
  ELSE IF x >= 0 THEN FRound(F, neg, TLCEval(NatMul(n, NatPow(<<10>>, x))), 0, FALSE)
  ELSE LET den == TLCEval(NatPow(<<10>>, 0 - x))
           k   == NatBits(den) + F.mb + 4
           qr  == TLCEval(NatDivMod(NatShl(n, k), den))
       IN FRound(F, neg, qr[1], 0 - k, qr[2] /= <<>>)
=============================================================================
