------------------------------ MODULE MC_Util ------------------------------
(***************************************************************************)
(* Equality of operands and tuples, and hexadecimal text.                  *)
(***************************************************************************)
EXTENDS System, FiniteSets

Sample == {Null, True, False} \cup {I32(IntOf(n, 4)) : n \in {0, 1, -1}} \cup {I64(IntOf(n, 8)) : n \in {0, 1, -1}}
          \cup {F32V(x) : x \in {FZero(F32, FALSE), FZero(F32, TRUE), FNaN(F32), FInf(F32, TRUE), <<0, 0, 128, 63>>}}
          \cup {F64V(x) : x \in {FZero(F64, FALSE), FZero(F64, TRUE), FNaN(F64), <<0, 0, 0, 0, 0, 0, 240, 63>>}}
          \cup {Str(x) : x \in {<<>>, <<0>>, <<49>>, <<49, 0>>}}
Bytes == {0, 9, 10, 15, 16, 127, 128, 160, 255}

VARIABLES kind, a, b
Init == \/ kind = "pair" /\ a \in Sample /\ b \in Sample
        \/ kind = "tuple" /\ a = <<>> /\ b = <<>>
        \/ kind = "hex" /\ a = <<>> /\ b = <<>>
Next == /\ UNCHANGED <<kind, b>>
        /\ \/ kind = "hex" /\ Len(a) < 3 /\ \E x \in Bytes : a' = Append(a, x)
           \/ kind = "tuple" /\ Len(a) < 2 /\ \E x \in Sample : a' = Append(a, x)
Spec == Init /\ [][Next]_<<kind, a, b>>

NaN(v) == IsFloat(v[1]) /\ FIsNaN(Fmt(v[1]), v[2])
Zero(v) == IsFloat(v[1]) /\ FIsZero(Fmt(v[1]), v[2])
Equal ==
  kind = "pair" =>
    /\ SameOperand(a, b) = (a[1] = b[1] /\ ~NaN(a) /\ (a = b \/ (Zero(a) /\ Zero(b))))
    /\ SameOperand(a, b) = SameOperand(b, a)
    /\ \A c \in Sample : (SameOperand(a, b) /\ SameOperand(b, c)) => SameOperand(a, c)
    \* equality of values of a type is what EQ computes
    /\ (a[1] = b[1] /\ a # Null) => SameOperand(a, b) = (Apply("eq", a[1], <<a, b>>) = True)
Tuples ==
  kind = "tuple" =>
    /\ \A x \in Sample : /\ ~SameTuple(a, Append(a, x))
                         /\ \A y \in Sample : SameTuple(Append(a, x), Append(a, y)) = (SameTuple(a, a) /\ SameOperand(x, y))
    /\ SameTuple(a, a) = (\A i \in 1..Len(a) : ~NaN(a[i]))
Hex ==
  kind = "hex" =>
    LET t == HexText(a)
    IN /\ Len(t) = 2 * Len(a)
       /\ \A i \in 1..Len(a) : 16 * HexValue(t[2 * i - 1]) + HexValue(t[2 * i]) = a[i]
       /\ \A i \in 1..Len(t) : HexValue(Lower1(t[i])) = HexValue(t[i])
       /\ UpperText(t) = t
Digits == /\ \A n \in 0..15 : HexValue(HexDigit(n)) = n
          /\ Cardinality({c \in 0..255 : HexValue(c) # -1}) = 22
=============================================================================
