------------------------------- MODULE MC_Wire -------------------------------
(***************************************************************************)
(* The decoders on all byte strings over small alphabets, built byte by    *)
(* byte: they always come to an end, inside the string; what they accept   *)
(* does not depend on what follows the end; encoding what was decoded      *)
(* yields the same program again; varints have the value that ordinary     *)
(* integer arithmetic gives.                                               *)
(***************************************************************************)
EXTENDS ExprVM, RelAlg

\* Bounds on the lengths of expressions, plans and varints
CONSTANTS NExpr, NPlan, NVar

\* EOE, NULL, constants INT32, BOOL, STRING, a var, NOT, ADD, CAST, FUN and bytes that stand for nothing
ExprBytes == {0, 1, 2, 17, 19, 23, 49, 81, 128, 131, 240, 18, 6}
PlanBytes == {0, 1, 2, 16, 17, 33, 49, 97, 113, 114, 115, 116, 128}
VarBytes == {0, 1, 5, 127, 128, 129, 255}

VARIABLES kind, c
vars == <<kind, c>>
Init == kind \in {"expr", "plan", "varint"} /\ c = <<>>
Next == /\ UNCHANGED kind
        /\ \/ kind = "expr" /\ Len(c) < NExpr /\ \E b \in ExprBytes : c' = Append(c, b)
           \/ kind = "plan" /\ Len(c) < NPlan /\ \E b \in PlanBytes : c' = Append(c, b)
           \/ kind = "varint" /\ Len(c) < NVar /\ \E b \in VarBytes : c' = Append(c, b)
Spec == Init /\ [][Next]_vars

Prefix(n) == SubSeq(c, 1, n)

Expr ==
  kind = "expr" =>
    LET d == DecodeExpr(c, 1)
        stopped == d.ok /\ d.p > 1 /\ c[d.p - 1] = 0 /\ DecodeExpr(Prefix(d.p - 2), 1) = [d EXCEPT !.p = @ - 1]
    IN /\ d.p \in 1..(Len(c) + 1)
       \* stops before the end of the code only behind an end-of-expression byte
       /\ (d.ok /\ d.p <= Len(c)) => stopped
       /\ stopped => \A t \in {<<0>>, <<17>>, <<131, 9>>, <<255>>} : DecodeExpr(c \o t, 1) = d /\ DecodeExpr(Prefix(d.p - 1) \o t, 1) = d
       \* what is rejected stays rejected, unless an immediate was cut off
       /\ ~d.ok => d.prog = <<>>
       \* the same anywhere in a code
       /\ LET e == DecodeExpr(<<7, 7>> \o c, 3) IN e = [d EXCEPT !.p = @ + 2]
       \* only existing operators, applied to the types they have
       /\ \A i \in 1..Len(d.prog) : LET x == d.prog[i] IN
            CASE x.n = "const" -> x.t \in Scalar /\ x.v[1] = x.t /\ WellFormed(x.v)
              [] x.n = "null" -> x.t \in Scalar
              [] x.n = "var" -> x.t \in 1..7
              [] OTHER -> Exists(x.n, x.t)
       \* encoding is the inverse, and never longer
       /\ d.ok => /\ DecodeExpr(Encode(d.prog), 1) = [ok |-> TRUE, p |-> Len(Encode(d.prog)) + 1, prog |-> d.prog]
                  /\ Len(Encode(d.prog)) <= d.p - 1
                  /\ DecodeExpr(Encode(d.prog) \o <<0>> \o c, 1) = [ok |-> TRUE, p |-> Len(Encode(d.prog)) + 2, prog |-> d.prog]

Plan ==
  kind = "plan" =>
    LET d == DecodePlan(c)
    IN /\ d.p \in 1..(Len(c) + 1)
       /\ d.ok => d.p = Len(c) + 1         \* a plan reaches to the end of the code
       /\ ~d.ok => d.plan = <<>>
       /\ d.ok => DecodePlan(EncodePlan(d.plan)) = [ok |-> TRUE, p |-> Len(EncodePlan(d.plan)) + 1, plan |-> d.plan]
       \* a plan is the sequence of its operators
       /\ d.ok => \A n \in 1..Len(d.plan) :
            LET rest == SubSeq(d.plan, n, Len(d.plan))
            IN DecodePlan(EncodePlan(SubSeq(d.plan, 1, n - 1)) \o EncodePlan(rest)).plan = d.plan
       \* operators with complete ends may be followed by others
       /\ (d.ok /\ c = EncodePlan(d.plan)) => DecodePlan(c \o c).ok /\ DecodePlan(c \o c).plan = d.plan \o d.plan
       /\ \A i \in 1..Len(d.plan) : \A a \in 1..Len(d.plan[i].aggs) :
            LET g == d.plan[i].aggs[a] IN g.f = "count_all" \/ g.t \in AggTypes[g.f]

\* The value of the groups of c as a number
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE (s[i] % 128) * 128 ^ (i - 1) + Sum(s, i + 1)
VarintOk ==
  kind = "varint" =>
    LET v == Varint(c, 1, 4)
        w == Varint(c, 1, 8)
        ends == {i \in 1..Len(c) : c[i] < 128 /\ \A j \in 1..(i - 1) : c[j] >= 128}
        q == CHOOSE i \in ends : TRUE
    IN /\ v.ok = (ends # {}) /\ w.ok = v.ok
       /\ v.ok => /\ v.p = q + 1 /\ w.p = v.p
                  /\ v.v = SubSeq(w.v, 1, 4)
                  /\ q <= 4 => IntSat(w.v) = Sum(Prefix(q), 1)
                  /\ q = 1 => EncVarint(w.v) = Prefix(1)
                  \* groups of 7 bits: shifting by one group is a group of zeros in front
                  /\ Varint(<<128>> \o c, 1, 8).v = NatPad(NatShl(NatNorm(w.v), 7), 8)
                  /\ \A b \in {0, 1, 127} : Varint(<<128 + b>> \o c, 1, 8).v = NatPad(NatAdd(NatShl(NatNorm(w.v), 7), NatOf(b)), 8)
                  /\ Varint(EncVarint(w.v), 1, 8).v = w.v /\ Len(EncVarint(w.v)) <= q
=============================================================================
