------------------------------ MODULE MC_Text ------------------------------
(***************************************************************************)
(* Printed numbers: rounding of digits against integer arithmetic, and     *)
(* reading printed numbers back.                                           *)
(***************************************************************************)
EXTENDS Text

VARIABLES kind, n
Fracs == {<<>>, <<1>>, <<255, 255, 127>>, <<170, 170, 42>>, <<0, 0, 64>>, <<205, 204, 76>>}
Init == \/ kind = "digits" /\ n \in {k * 100 : k \in 1..99}
        \/ kind = "small" /\ n = 0
        \/ kind = "float" /\ n = 0
Next == /\ UNCHANGED kind
        /\ CASE kind = "digits" -> n % 100 # 99 /\ n' = n + 1
             [] kind = "small" -> n < 255 /\ n' = n + 1
             [] kind = "float" -> n < 254 /\ n' = n + 1
Spec == Init /\ [][Next]_<<kind, n>>

RECURSIVE Num(_)
Num(d) == IF d = <<>> THEN 0 ELSE d[Len(d)] + 10 * Num(SubSeq(d, 1, Len(d) - 1))

\* d[1].d[2]... * 10^x as a multiple of 1, for x = Len(d) - 1
Rounded ==
  kind = "digits" =>
    LET d == NatDec(NatOf(n))
        r == RoundDigits(d, Len(d) - 1, 2)
        u == 10 ^ (Len(d) - 2)
        v == Num(r[1]) * 10 ^ (r[2] - 1)
        e == IF v > n THEN v - n ELSE n - v
    IN Len(d) >= 2 =>
       /\ Len(r[1]) = 2 /\ r[1][1] # 0
       /\ 2 * e <= u
       /\ 2 * e = u => (v \div u) % 2 = 0

Read(s, t) == StrToFloat(s, t)
Same(s, F, a) ==
  LET v == Read(s, TDouble)
  IN v[1] = TDouble /\ FConv(F64, F, v[2]) = a

\* Numbers of one byte: the text determines the number
Small ==
  kind = "small" =>
    LET a == <<n>> IN FIsFin(F8, a) => Same(FShort(F8, a), F8, a) /\ FShort(F64, FConv(F8, F64, a)) = FShort(F8, a)

\* Numbers of all magnitudes: what is printed is printed the same again
Fixed ==
  kind = "float" =>
    \A f \in Fracs : \A neg \in BOOLEAN :
      LET a == FMake(F32, neg, n, f)
          s == FShort(F32, a)
          v == Read(s, TDouble)
      IN /\ Len(s) \in 1..12
         /\ v[1] = TDouble /\ FShort(F64, v[2]) = s
         /\ s[Len(s)] # 46 /\ (n \in 127..140 => Len(s) <= 8)

Table ==
  /\ FShort(F64, F64One) = <<49>>
  /\ FShort(F64, FZero(F64, TRUE)) = <<45, 48>>
  /\ FShort(F64, <<0, 0, 0, 0, 128, 132, 46, 65>>) = <<49, 101, 43, 48, 54>>      \* 1e+06
  /\ FShort(F64, <<0, 0, 0, 0, 126, 132, 46, 65>>) = <<57, 57, 57, 57, 57, 57>>   \* 999999
  /\ FShort(F32, <<23, 183, 209, 56>>) = <<48, 46, 48, 48, 48, 49>>               \* 0.0001
  /\ FShort(F32, <<172, 197, 39, 55>>) = <<49, 101, 45, 48, 53>>                  \* 1e-05
=============================================================================
