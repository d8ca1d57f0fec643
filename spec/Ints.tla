-------------------------------- MODULE Ints --------------------------------
(***************************************************************************)
(* Two's complement integers of n bytes, as sequences of n bytes, least    *)
(* significant first.  Everything is parametric in n = Len: the            *)
(* implementation uses n = 4 and n = 8, MC_Ints checks n = 1 (and corners  *)
(* of n = 2) exhaustively against TLC's own integers.                      *)
(***************************************************************************)
EXTENDS BigNat

\* 256^n
IntMod(n) == NatPow2(8 * n)

IntIsNeg(a) == a[Len(a)] >= 128

\* The magnitude of a
IntMag(a) == IF IntIsNeg(a) THEN NatSub(IntMod(Len(a)), NatNorm(a)) ELSE NatNorm(a)

\* The n bytes of the integer with sign `neg` and magnitude m, modulo 256^n
IntEnc(neg, m, n) ==
  IF neg THEN NatPad(NatSub(IntMod(n), NatLow(m, 8 * n)), n) ELSE NatPad(m, n)

\* Does the integer (neg, m) lie in the range of n bytes?
IntFits(neg, m, n) ==
  LET h == NatPow2(8 * n - 1)
  IN IF neg THEN NatCmp(m, h) <= 0 ELSE NatCmp(m, h) < 0

IntZero(n) == [i \in 1..n |-> 0]
IntOne(n)  == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
IntIsZero(a) == \A i \in 1..Len(a) : a[i] = 0
IntMin(n) == [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
IntMax(n) == [i \in 1..n |-> IF i = n THEN 127 ELSE 255]

IntNeg(a) == IntEnc(TRUE, NatNorm(a), Len(a))
IntAdd(a, b) == NatPad(NatAdd(NatNorm(a), NatNorm(b)), Len(a))
IntSub(a, b) == NatPad(NatAdd(NatNorm(a), NatSub(IntMod(Len(b)), NatNorm(b))), Len(a))
IntMul(a, b) == NatPad(NatMul(NatNorm(a), NatNorm(b)), Len(a))
IntAbs(a) == IF IntIsNeg(a) THEN IntNeg(a) ELSE a

\* Division truncating toward zero; b is not zero
IntDiv(a, b) == IntEnc(IntIsNeg(a) /= IntIsNeg(b), NatDiv(IntMag(a), IntMag(b)), Len(a))
\* Remainder with the sign of the dividend
IntRem(a, b) == IntEnc(IntIsNeg(a), NatRem(IntMag(a), IntMag(b)), Len(a))

\* -1, 0, 1
IntCmp(a, b) ==
  IF IntIsNeg(a) /= IntIsNeg(b) THEN (IF IntIsNeg(a) THEN -1 ELSE 1)
  ELSE NatCmp(NatNorm(a), NatNorm(b))

\* Sign extension or truncation to n bytes
IntResize(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE IF IntIsNeg(a) THEN 255 ELSE 0]

\* ASCII decimal representation
IntDec(a) == LET d == NatDec(IntMag(a))
                 t == [i \in 1..Len(d) |-> 48 + d[i]]
             IN IF IntIsNeg(a) THEN <<45>> \o t ELSE t

\* As an integer of TLC, saturated at +-(2^30): for lengths and positions
IntSat(a) ==
  LET m == IntMag(a)
      v == IF NatBits(m) > 30 THEN 1073741824 ELSE NatToInt(m)
  IN IF IntIsNeg(a) THEN 0 - v ELSE v

\* n bytes of an integer of TLC
IntOf(v, n) == IF v < 0 THEN IntEnc(TRUE, NatOf(0 - v), n) ELSE IntEnc(FALSE, NatOf(v), n)
=============================================================================
