------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size.  TLC's own integers have 32 bits, the      *)
(* implementation computes on 32- and 64-bit words and on IEEE 754         *)
(* doubles, so wide numbers are sequences of base-256 digits, least        *)
(* significant first, without trailing zero digits (zero is <<>>).         *)
(*                                                                         *)
(* The definitions below are the specification.  For speed TLC replaces    *)
(* them by the methods of java/BigNat.java (java.math.BigInteger) when     *)
(* that class is on its class path; MC_BigNat.tla checks the definitions   *)
(* against TLC's integers without the class, and TestBigNat.tla checks the *)
(* class against the definitions (copied there as a second instance).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Loops

LOCAL NBMin(a, b) == IF a < b THEN a ELSE b
LOCAL NBMax(a, b) == IF a > b THEN a ELSE b

\* The digit at position i (from 1), 0 beyond the end
NatDigit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NatNorm(_)
NatNorm(a) == IF a = <<>> THEN <<>>
              ELSE IF a[Len(a)] = 0 THEN NatNorm(TLCEval(SubSeq(a, 1, Len(a) - 1))) ELSE a

\* Propagates the carries of a sequence of digits that may exceed 255
RECURSIVE NatCarry(_, _, _)
NatCarry(s, c, acc) ==
  IF s = <<>>
  THEN IF c = 0 THEN acc ELSE NatCarry(<<>>, c \div 256, TLCEval(Append(acc, c % 256)))
  ELSE LET v == TLCEval(s[1] + c)
       IN NatCarry(TLCEval(Tail(s)), TLCEval(v \div 256), TLCEval(Append(acc, v % 256)))

NatOf(n) == NatCarry(<<>>, n, <<>>)

RECURSIVE NatToInt(_)
NatToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + 256 * NatToInt(Tail(a))

NatAdd(a, b) ==
  NatNorm(NatCarry(TLCEval([i \in 1..NBMax(Len(a), Len(b)) |-> NatDigit(a, i) + NatDigit(b, i)]), 0, <<>>))

\* -1, 0, 1 for less, equal, greater (normalised operands)
RECURSIVE NatCmpAt(_, _, _)
NatCmpAt(a, b, i) == IF i = 0 THEN 0
                     ELSE IF NatDigit(a, i) < NatDigit(b, i) THEN -1
                     ELSE IF NatDigit(a, i) > NatDigit(b, i) THEN 1
                     ELSE NatCmpAt(a, b, i - 1)
NatCmp(a, b) == NatCmpAt(a, b, NBMax(Len(a), Len(b)))

\* a - b for a >= b: add 256's complement of b and drop the final carry
NatSub(a, b) ==
  LET n == Len(a)
      c == TLCEval([i \in 1..n |-> NatDigit(a, i) + 255 - NatDigit(b, i) + (IF i = 1 THEN 1 ELSE 0)])
  IN NatNorm(SubSeq(NatCarry(c, 0, <<>>), 1, n))

RECURSIVE NatDot(_, _, _, _, _)
NatDot(a, b, k, i, acc) ==
  IF i > NBMin(k, Len(a)) THEN acc
  ELSE NatDot(a, b, k, i + 1, TLCEval(acc + a[i] * NatDigit(b, k + 1 - i)))
NatMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE NatNorm(NatCarry(TLCEval([k \in 1..(Len(a) + Len(b) - 1) |-> NatDot(a, b, k, 1, 0)]), 0, <<>>))

RECURSIVE NatPow(_, _)
NatPow(a, k) == IF k = 0 THEN <<1>> ELSE TLCEval(NatMul(a, NatPow(a, k - 1)))

\* 2^k
NatPow2(k) == TLCEval([i \in 1..(k \div 8 + 1) |-> IF i <= k \div 8 THEN 0 ELSE 2 ^ (k % 8)])

NatShl(a, k) == NatMul(a, NatPow2(k))

\* a \div 2^k
NatShr(a, k) ==
  LET d == k \div 8
      r == 2 ^ (k % 8)
  IN IF Len(a) <= d THEN <<>>
     ELSE NatNorm(TLCEval([i \in 1..(Len(a) - d) |->
                    (a[i + d] \div r) + (NatDigit(a, i + d + 1) % r) * (256 \div r)]))

\* a mod 2^k
NatLow(a, k) ==
  LET d == k \div 8
      r == 2 ^ (k % 8)
  IN NatNorm(TLCEval([i \in 1..NBMin(Len(a), d + 1) |-> IF i <= d THEN a[i] ELSE a[i] % r]))

\* The number of bits of a
RECURSIVE NatByteBits(_)
NatByteBits(n) == IF n = 0 THEN 0 ELSE 1 + NatByteBits(n \div 2)
NatBits(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + NatByteBits(a[Len(a)])

\* Long division in base 2, most significant bit first: <<quotient, remainder>>
RECURSIVE NatDivAt(_, _, _, _, _)
NatDivAt(a, b, k, q, r) ==
  IF k = 0 THEN <<q, r>>
  ELSE LET bit == TLCEval(NatLow(NatShr(a, k - 1), 1))
           r2 == TLCEval(NatAdd(NatShl(r, 1), bit))
           fits == TLCEval(NatCmp(r2, b) >= 0)
       IN NatDivAt(a, b, k - 1,
                   TLCEval(NatAdd(NatShl(q, 1), IF fits THEN <<1>> ELSE <<>>)),
                   TLCEval(IF fits THEN NatSub(r2, b) ELSE r2))
NatDivMod(a, b) == NatDivAt(a, b, NatBits(a), <<>>, <<>>)
NatDiv(a, b) == NatDivMod(a, b)[1]
NatRem(a, b) == NatDivMod(a, b)[2]

\* The integer square root, by Newton's method from above
RECURSIVE NatSqrtAt(_, _)
NatSqrtAt(a, r) ==
  LET s == TLCEval(NatShr(NatAdd(r, NatDiv(a, r)), 1))
  IN IF NatCmp(s, r) >= 0 THEN r ELSE NatSqrtAt(a, s)
NatSqrt(a) == IF a = <<>> THEN <<>> ELSE NatSqrtAt(a, NatPow2((NatBits(a) + 1) \div 2))

\* Exactly n digits: padded with zeros, or cut (modulo 256^n)
NatPad(a, n) == [i \in 1..n |-> NatDigit(a, i)]

\* Decimal digits (values 0..9), most significant first; <<0>> for zero
RECURSIVE NatDecAt(_, _)
NatDecAt(a, acc) ==
  IF a = <<>> THEN acc
  ELSE LET qr == TLCEval(NatDivMod(a, <<10>>))
       IN NatDecAt(qr[1], TLCEval(<<NatToInt(qr[2])>> \o acc))
NatDec(a) == IF a = <<>> THEN <<0>> ELSE NatDecAt(a, <<>>)

\* The value of decimal digits, most significant first
RECURSIVE NatOfDecAt(_, _)
NatOfDecAt(d, acc) ==
  IF d = <<>> THEN acc
  ELSE NatOfDecAt(TLCEval(Tail(d)), TLCEval(NatAdd(NatMul(acc, <<10>>), NatOf(d[1]))))
NatOfDec(d) == NatOfDecAt(d, <<>>)
=============================================================================
