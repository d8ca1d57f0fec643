------------------------------- MODULE MC_Cast -------------------------------
(***************************************************************************)
(* Conversions.  Texts of up to NText characters against the grammar of    *)
(* numbers; and for a range of bit patterns the round trips, the relation  *)
(* of checked to unchecked conversions and the definition of rounding.     *)
(***************************************************************************)
EXTENDS Calc, FiniteSets

CONSTANT NText

TextChars == {48, 49, 55, 45, 43, 32, 10, 46, 101, 0, 97}
Byte1 == {0, 1, 127, 128, 255}
Byte2 == {0, 1, 62, 63, 64, 65, 75, 79, 127, 128, 190, 191, 192, 207, 255}

VARIABLES kind, s
Init == \/ kind = "text" /\ s = <<>>
        \/ kind = "i32" /\ s \in {<<p, q, r, u>> : p \in Byte1, q \in Byte1, r \in Byte1, u \in Byte1}
        \/ kind = "i64" /\ s \in {<<p, q, r, u, v, u, r, w>> : p \in Byte1, q \in {0, 255}, r \in Byte1, u \in {0, 127, 128, 255}, v \in Byte1, w \in Byte1}
        \/ kind = "f32" /\ s \in {<<p, q, r, u>> : p \in Byte1, q \in Byte1, r \in Byte1 \cup {64, 192}, u \in Byte2}
        \/ kind = "f64" /\ s \in {<<p, p, q, q, p, r, v, u>> : p \in Byte1, q \in {0, 255}, r \in Byte1, v \in {0, 15, 16, 224, 240, 255}, u \in Byte2}
Next == /\ kind = "text" /\ Len(s) < NText /\ \E c \in TextChars : s' = Append(s, c)
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, s>>

\* The text a C string function looks at
Z == {i \in 1..Len(s) : s[i] = 0}
C == IF Z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in Z : \A j \in Z : i <= j) - 1)
Digits(x) == \A i \in 1..Len(x) : x[i] \in 48..57
RECURSIVE Number(_)
Number(x) == IF x = <<>> THEN 0 ELSE 10 * Number(SubSeq(x, 1, Len(x) - 1)) + x[Len(x)] - 48
RECURSIVE Rest(_)
Rest(x) == IF x # <<>> /\ Head(x) \in {32, 9, 10, 11, 12, 13} THEN Rest(Tail(x)) ELSE x
Sign(x) == IF x # <<>> /\ Head(x) = 45 THEN -1 ELSE 1
Unsigned(x) == IF x # <<>> /\ Head(x) \in {43, 45} THEN Tail(x) ELSE x
\* The longest prefix of digits
Lead(x) == SubSeq(x, 1, CHOOSE n \in 0..Len(x) : Digits(SubSeq(x, 1, n)) /\ (n = Len(x) \/ x[n + 1] \notin 48..57))
Behind(x, y) == SubSeq(x, Len(y) + 1, Len(x))

TextInt ==
  kind = "text" =>
    LET r == Rest(C)
        d == Lead(Unsigned(r))
        v == Sign(r) * Number(d)
    IN /\ StrToInt(s, 4) = I32(IntOf(v, 4))
       /\ StrToInt(s, 8) = I64(IntOf(v, 8))
       \* the same with integers of one byte, where it may overflow
       /\ LET o == StrToInt(s, 1) IN IF v \in -128..127 THEN o[2] = IntOf(v, 1) ELSE o = Err

TextFloat ==
  kind = "text" =>
    LET r == Rest(C)
        u == Unsigned(r)
        d == Lead(u)
        a == Behind(u, d)
        f == IF a # <<>> /\ Head(a) = 46 THEN Lead(Tail(a)) ELSE <<>>
        b == IF a # <<>> /\ Head(a) = 46 /\ (d # <<>> \/ f # <<>>) THEN Behind(Tail(a), f) ELSE a
        e == IF Len(b) >= 2 /\ Head(b) = 101 THEN Lead(Unsigned(Tail(b))) ELSE <<>>
        x == Sign(IF b = <<>> THEN <<>> ELSE Tail(b)) * Number(e) - Len(f)
        n == Number(d \o f)
        sg == Sign(r) = -1
        exact(F) == LET m == FOfInt(F, IntOf(n, 4))
                        y == IF x < 0 THEN FDiv(F, m, FOfInt(F, NatPad(NatPow(<<10>>, 0 - x), 8))) ELSE FMul(F, m, FOfInt(F, NatPad(NatPow(<<10>>, x), 8)))
                    IN IF sg THEN FNegate(F, y) ELSE y
    IN /\ (d = <<>> /\ f = <<>>) => StrToFloat(s, 4) = F32V(FZero(F32, FALSE)) /\ StrToFloat(s, 5) = F64V(FZero(F64, FALSE))
       \* both operands exact: one correctly rounded operation
       /\ ((d # <<>> \/ f # <<>>) /\ n = 0) => StrToFloat(s, 5) = F64V(FZero(F64, sg))
       /\ ((d # <<>> \/ f # <<>>) /\ n # 0 /\ x \in -10..10) => StrToFloat(s, 4) = F32V(exact(F32))
       /\ ((d # <<>> \/ f # <<>>) /\ n # 0 /\ x \in -18..18) => StrToFloat(s, 5) = F64V(exact(F64))

Ints1 ==
  kind \in {"i32", "i64"} =>
    LET t == IF kind = "i32" THEN 1 ELSE 2
        a == <<t, s>>
        text == Cast(7, t, a)
    IN /\ Cast(t, 7, text) = a
       /\ Cast(t, 7, Str(<<32, 10>> \o text[2] \o <<120>>)) = a
       /\ t = 1 => /\ Cast(1, 2, Cast(2, 1, a)) = a /\ CastChecked(1, 2, Cast(2, 1, a)) = a
                   /\ Cast(1, 5, Cast(5, 1, a)) = a /\ CastChecked(1, 5, Cast(5, 1, a)) = a
       /\ t = 2 => LET c == CastChecked(1, 2, a)
                   IN IF Cast(2, 1, Cast(1, 2, a)) = a THEN c = Cast(1, 2, a) ELSE c = Limit
       /\ Cast(3, t, a) = Apply("is_true", t, <<a>>)
       /\ Cast(t, 3, Cast(3, t, a)) = (IF a[2] = IntZero(Width(t)) THEN a ELSE <<t, IntOne(Width(t))>>)
       \* conversion to a float keeps the order
       /\ \A f \in {4, 5} : LET x == Cast(f, t, a) y == Cast(f, t, <<t, IntAdd(s, IntOne(Width(t)))>>)
                            IN s # IntMax(Width(t)) => Order(f, x, y) \in {-1, 0}

Fin(F) == FIsFin(F, s)
Floats1 ==
  kind \in {"f32", "f64"} =>
    LET t == IF kind = "f32" THEN 4 ELSE 5
        F == Fmt(t)
        a == <<t, s>>
        top == IF FIsZero(F, s) THEN -2000 ELSE NatBits(FSig(F, s)) + FPow(F, s) - 1
        text == Cast(7, t, a)
        half == FMake(F, FALSE, FBias(F) - 1, <<>>)
        one == FMake(F, FALSE, FBias(F), <<>>)
    IN /\ (t = 4 /\ ~FIsNaN(F32, s)) => Cast(4, 5, Cast(5, 4, a)) = a
       /\ t = 5 => LET x == Cast(4, 5, a) IN Order(4, x, Cast(4, 5, Cast(5, 4, x))) \in {0, 2}
       /\ Cast(3, t, a) = Apply("is_true", t, <<a>>)
       \* rounding to the nearest integer, halves away from zero
       /\ \A n \in {4, 8} :
            LET i == IF n = 4 THEN 1 ELSE 2
                c == CastChecked(i, t, a)
            IN /\ c = Limit \/ (c[1] = i /\ Len(c[2]) = n)
               /\ ~Fin(F) => c = Limit
               /\ (Fin(F) /\ top < 8 * n - 1) => c = Cast(i, t, a) \/ c = Limit
               /\ (Fin(F) /\ top < 8 * n - 2) => c = Cast(i, t, a)
               /\ top >= 8 * n => c = Limit
               /\ (Fin(F) /\ c # Limit /\ top < F.mb) =>
                    LET r == FAbs(F, FOfInt(F, c[2]))
                        x == FAbs(F, s)
                        d == FSub(F, r, x)                       \* exact
                        m == FAbs(F, d)
                    IN /\ FCmp(F, m, half) \in {-1, 0}
                       /\ FCmp(F, m, half) = 0 => ~FNeg(d)
                       /\ ~IntIsZero(c[2]) => IntIsNeg(c[2]) = FNeg(s)
       \* a text of 15 places says which number it was, if it is not too small
       /\ (Fin(F) /\ top >= (IF t = 4 THEN -26 ELSE 3) /\ top < 60) => Cast(t, 7, text) = a
       /\ (Fin(F) /\ top < 60) => /\ \A i \in 1..Len(text[2]) : text[2][i] \in (48..57 \cup {45, 46})
                                  /\ Cardinality({i \in 1..Len(text[2]) : text[2][i] = 46}) = 1

Everything == TextInt /\ TextFloat /\ Ints1 /\ Floats1
=============================================================================
