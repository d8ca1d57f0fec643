------------------------------ MODULE MC_Floats ------------------------------
(***************************************************************************)
(* All pairs of one-byte floating point numbers (3 bits of exponent, 4 of  *)
(* fraction): the definitions of Floats against "the representable number  *)
(* nearest to the exact result, the even one of two", by enumeration.      *)
(* Finite numbers are multiples of 1/64; 1024/64 stands for infinity when  *)
(* rounding.                                                               *)
(***************************************************************************)
EXTENDS Floats, FiniteSets
VARIABLES a, b, ready

Init == a \in 0..255 /\ b = 0 /\ ready = FALSE
Next == ~ready /\ b' \in 0..255 /\ ready' = TRUE /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, ready>>

E(n) == (n % 128) \div 16
Fr(n) == n % 16
Neg(n) == n >= 128
Fin(n) == E(n) < 7
Nan(n) == E(n) = 7 /\ Fr(n) /= 0
Inf(n) == E(n) = 7 /\ Fr(n) = 0
Zero(n) == n % 128 = 0
\* magnitude in 64ths, of bit patterns up to infinity
V(n) == IF E(n) = 0 THEN Fr(n) ELSE (16 + Fr(n)) * 2 ^ (E(n) - 1)
SV(n) == IF Neg(n) THEN 0 - V(n) ELSE V(n)
Val == [n \in 0..112 |-> V(n)]
AbsI(n) == IF n < 0 THEN 0 - n ELSE n

\* The pattern nearest to the magnitude num / den (in 64ths)
Nearest(num, den) ==
  IF num >= 1024 * den THEN 112
  ELSE LET lo == CHOOSE n \in 0..111 : Val[n] * den <= num /\ num < Val[n + 1] * den
           dl == num - Val[lo] * den
           dh == Val[lo + 1] * den - num
       IN IF dl < dh THEN lo ELSE IF dh < dl THEN lo + 1 ELSE IF lo % 2 = 0 THEN lo ELSE lo + 1
P(neg, n) == <<IF neg THEN n + 128 ELSE n>>
IsN(r) == FIsNaN(F8, r)

AddOk(x, y, r) ==
  IF Nan(x) \/ Nan(y) THEN IsN(r)
  ELSE IF Inf(x) /\ Inf(y) /\ Neg(x) /= Neg(y) THEN IsN(r)
  ELSE IF Inf(x) THEN r = <<x>>
  ELSE IF Inf(y) THEN r = <<y>>
  ELSE LET s == SV(x) + SV(y)
       IN IF s = 0 THEN r = P(Zero(x) /\ Zero(y) /\ Neg(x) /\ Neg(y), 0)
          ELSE r = P(s < 0, Nearest(AbsI(s), 1))
MulOk(x, y, r) ==
  IF Nan(x) \/ Nan(y) \/ (Inf(x) /\ Zero(y)) \/ (Zero(x) /\ Inf(y)) THEN IsN(r)
  ELSE r = P(Neg(x) /= Neg(y), IF Inf(x) \/ Inf(y) THEN 112 ELSE Nearest(V(x) * V(y), 64))
DivOk(x, y, r) ==
  IF Nan(x) \/ Nan(y) \/ (Inf(x) /\ Inf(y)) \/ (Zero(x) /\ Zero(y)) THEN IsN(r)
  ELSE r = P(Neg(x) /= Neg(y),
             IF Inf(x) \/ Zero(y) THEN 112 ELSE IF Inf(y) THEN 0 ELSE Nearest(V(x) * 64, V(y)))
CmpOk(x, y, r) ==
  r = (IF Nan(x) \/ Nan(y) THEN 2
       ELSE LET u == IF Inf(x) THEN (IF Neg(x) THEN -2000 ELSE 2000) ELSE SV(x)
                v == IF Inf(y) THEN (IF Neg(y) THEN -2000 ELSE 2000) ELSE SV(y)
            IN IF u < v THEN -1 ELSE IF u > v THEN 1 ELSE 0)

\* Decimal text with k places of a finite number, digit by digit
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000
TextValue(t) ==       \* the text as <<negative, all digits as a number, number of fraction digits>>
  LET u == IF t[1] = 45 THEN Tail(t) ELSE t
      p == CHOOSE i \in 1..Len(u) : u[i] = 46
      d == SubSeq(u, 1, p - 1) \o SubSeq(u, p + 1, Len(u))
  IN <<t[1] = 45, NatToInt(NatOfDec([i \in 1..Len(d) |-> d[i] - 48])), Len(u) - p, u[1] /= 48 \/ p = 2>>
TextOk(x, k, t) ==
  LET v == TextValue(t)
      num == V(x) * Pow10(k)                 \* value * 10^k = num / 64
      q == num \div 64
      r == num % 64
      n == IF r < 32 THEN q ELSE IF r > 32 THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
  IN /\ v[1] = Neg(x) /\ v[4]
     /\ v[3] \in 1..k
     /\ v[2] * Pow10(k - v[3]) = n
     /\ v[3] > 1 => v[2] % 10 /= 0

Exact ==
  ready =>
    LET u == <<a>> v == <<b>> IN
    /\ AddOk(a, b, FAdd(F8, u, v))
    /\ MulOk(a, b, FMul(F8, u, v))
    /\ DivOk(a, b, FDiv(F8, u, v))
    /\ AddOk(a, IF Neg(b) THEN b - 128 ELSE b + 128, FSub(F8, u, v))
    /\ CmpOk(a, b, FCmp(F8, u, v))
    /\ FIsNaN(F8, u) = Nan(a) /\ FIsInf(F8, u) = Inf(a) /\ FIsZero(F8, u) = Zero(a)
    /\ ~Nan(a) => /\ FNegate(F8, u) = <<(a + 128) % 256>>
                  /\ FAbs(F8, u) = <<a % 128>>
                  /\ FConv(F32, F8, FConv(F8, F32, u)) = u
                  /\ FConv(F64, F8, FConv(F32, F64, FConv(F8, F32, u))) = u
    \* an integer of one byte, and products of integers as decimal numbers
    /\ LET i == IF b >= 128 THEN b - 256 ELSE b
       IN FOfInt(F8, v) = P(i < 0, Nearest(64 * AbsI(i), 1))
    /\ FOfDecimal(F8, Neg(b), NatOf(a), 0) = P(Neg(b), Nearest(64 * a, 1))
    /\ FOfDecimal(F8, Neg(b), NatOf(a * b), -3) = P(Neg(b), Nearest(64 * a * b, 1000))
    /\ FOfDecimal(F8, FALSE, NatOf(a), 1) = P(FALSE, Nearest(640 * a, 1))
    /\ Fin(a) => /\ FRoundHalfAway(F8, u) = NatOf((V(a) + 32) \div 64)
                 /\ LET s == SV(a)
                        fl == s \div 64             \* floor, also for negative s
                        ce == 0 - ((0 - s) \div 64)
                    IN /\ FFloor(F8, u) = P(Neg(a), Nearest(64 * AbsI(fl), 1))
                       /\ FCeil(F8, u) = P(Neg(a), Nearest(64 * AbsI(ce), 1))
                 /\ b \in 1..4 => TextOk(a, b, FDecText(F8, u, b))
=============================================================================
