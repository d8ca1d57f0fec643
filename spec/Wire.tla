-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The byte encoding of expressions and of relational plans.  A code is a  *)
(* sequence of bytes; positions count from 1, position Len + 1 is the end. *)
(*                                                                         *)
(* An instruction is [n, t, v, i]: name, type (as in Calc), the operand of *)
(* a constant, the index of a variable.  An operator of a plan is          *)
(* [k, prog, idx, aggs].                                                   *)
(***************************************************************************)
EXTENDS Calc

Ins(n, t, v, i) == [n |-> n, t |-> t, v |-> v, i |-> i]
OpIns(n, t) == Ins(n, t, Null, 0)

OpCode ==   \* second byte = data type
  [pos |-> 129, neg |-> 130, add |-> 131, sub |-> 132, mul |-> 133, div |-> 134, mod |-> 135,
   eq |-> 145, ge |-> 146, gt |-> 147, le |-> 148, lt |-> 149, ne |-> 150,
   is_null |-> 161, is_true |-> 162, is_false |-> 163,
   min |-> 177, max |-> 178, abs |-> 179, abs_c |-> 180]
TypedByCode == [c \in {OpCode[n] : n \in DOMAIN OpCode} |-> CHOOSE n \in DOMAIN OpCode : OpCode[n] = c]
LogicCode == [not |-> 81, and |-> 82, or |-> 83]
LogicByCode == [c \in 81..83 |-> CHOOSE n \in DOMAIN LogicCode : LogicCode[n] = c]
CodeCast == 240
CodeFun == 241
CodeCastC == 252
CodeEoe == 0

---------------------------------------------------------------------------
(* Immediates: [ok, p, v] with the position behind the immediate.          *)

Bad == [ok |-> FALSE, p |-> 0, v |-> <<>>]
Good(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

\* The position of the last group of the varint at p, 0 if it is not complete
VarintEnd(c, p) ==
  LET q == SkipWhile(LAMBDA k : c[k] >= 128, p, Len(c))
  IN IF q > Len(c) THEN 0 ELSE q

\* The value of the 7-bit groups at p..q, least significant first
RECURSIVE VarintValue(_, _, _, _)
VarintValue(c, p, q, acc) ==
  IF q < p THEN acc
  ELSE VarintValue(c, p, q - 1, TLCEval(NatAdd(NatShl(acc, 7), NatOf(c[q] % 128))))

\* An integer of n bytes: the value modulo 256^n
Varint(c, p, n) ==
  LET q == VarintEnd(c, p)
      q1 == IF q - p > 18 THEN p + 18 ELSE q        \* further groups are beyond any width
  IN IF q = 0 THEN Bad ELSE Good(q + 1, NatPad(VarintValue(c, p, q1, <<>>), n))

RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
BigEndian(c, p, n) == IF p + n - 1 > Len(c) THEN Bad ELSE Good(p + n, RevSeq(SubSeq(c, p, p + n - 1)))

\* A length or count of n bytes read at p: clipped to 2^30, which is beyond any input
Count(c, p, n) ==
  LET r == Varint(c, p, n)
  IN IF ~r.ok THEN [ok |-> FALSE, p |-> 0, n |-> 0]
     ELSE [ok |-> TRUE, p |-> r.p,
           n |-> IF NatBits(NatNorm(r.v)) > 30 THEN 1073741824 ELSE NatToInt(NatNorm(r.v))]

Text(c, p) ==
  LET r == Count(c, p, 4)
  IN IF ~r.ok \/ r.n > Len(c) - r.p + 1 THEN Bad ELSE Good(r.p + r.n, SubSeq(c, r.p, r.p + r.n - 1))

Immediate(c, p, t) ==
  CASE t = TInt32 -> Varint(c, p, 4)
    [] t = TInt64 -> Varint(c, p, 8)
    [] t = TFloat -> BigEndian(c, p, 4)
    [] t = TDouble -> BigEndian(c, p, 8)
    [] t = TString -> Text(c, p)

---------------------------------------------------------------------------
(* One instruction at position p: [ok, p, ins], where ins is a sequence of *)
(* no or one instruction (a conversion of a type to itself does nothing).  *)

NoIns == [ok |-> FALSE, p |-> 0, ins |-> <<>>]
One(p, i) == [ok |-> TRUE, p |-> p, ins |-> <<i>>]

OneByte(c, p) ==
  LET h == c[p] \div 16
      t == c[p] % 16
      imm == IF t \in {1, 2, 4, 5, 7} THEN Immediate(c, p + 1, t) ELSE Bad
      idx == Varint(c, p + 1, 4)
  IN CASE h = 0 /\ t \in Scalar -> One(p + 1, Ins("null", t, Null, 0))
       [] h = 1 /\ t = TBool -> One(p + 1, Ins("const", t, True, 0))
       [] h = 2 /\ t = TBool -> One(p + 1, Ins("const", t, False, 0))
       [] h = 1 /\ t \in {1, 2, 4, 5, 7} ->
            IF imm.ok THEN One(imm.p, Ins("const", t, <<t, imm.v>>, 0)) ELSE NoIns
       [] h = 2 /\ t \in {1, 2} ->
            IF imm.ok THEN One(imm.p, Ins("const", t, <<t, IntNeg(imm.v)>>, 0)) ELSE NoIns
       \* Deviation kept from the implementation: variables of type DECIMAL are
       \* passed through, though there are no operands of this type.
       [] h = 3 /\ t \in 1..7 ->
            IF idx.ok THEN One(idx.p, Ins("var", t, Null, IntSat(idx.v))) ELSE NoIns
       [] c[p] \in 81..83 -> One(p + 1, OpIns(LogicByCode[c[p]], 0))
       [] OTHER -> NoIns

TwoByte(c, p) ==
  LET a == c[p]
      b == c[p + 1]
      dst == b \div 16
      src == b % 16
  IN IF a \in DOMAIN TypedByCode
     THEN IF b \in Types /\ Exists(TypedByCode[a], b) THEN One(p + 2, OpIns(TypedByCode[a], b)) ELSE NoIns
     ELSE IF a \in {CodeCast, CodeCastC}
     THEN IF dst \in Types /\ dst = src THEN [ok |-> TRUE, p |-> p + 2, ins |-> <<>>]
          ELSE IF CastExists(dst, src) THEN One(p + 2, OpIns(IF a = CodeCast THEN "cast" ELSE "cast_c", b))
          ELSE NoIns
     ELSE IF a = CodeFun
     THEN IF b \in Funs THEN One(p + 2, OpIns("fun", b)) ELSE NoIns
     ELSE NoIns

DecodeIns(c, p) ==
  IF c[p] < 128 THEN OneByte(c, p)
  ELSE IF p = Len(c) THEN NoIns
  ELSE TwoByte(c, p)

(***************************************************************************)
(* An expression at position p: decoded up to the first end-of-expression  *)
(* byte at an operator position, which is skipped, or the end of the code. *)
(***************************************************************************)
DecodeExpr(c, p0) ==
  LET more(d) == d.ok /\ d.p <= Len(c) /\ c[d.p] /= CodeEoe
      next(d) == LET r == TLCEval(DecodeIns(c, d.p))
                 IN TLCEval([ok |-> r.ok, p |-> IF r.ok THEN r.p ELSE d.p, prog |-> d.prog \o r.ins])
      d == Iterate(more, next, [ok |-> TRUE, p |-> p0, prog |-> <<>>])
  IN IF ~d.ok THEN [d EXCEPT !.prog = <<>>]
     ELSE IF d.p <= Len(c) THEN [d EXCEPT !.p = @ + 1]
     ELSE d

---------------------------------------------------------------------------
(* Plans                                                                   *)

PlanOp(k, prog, idx, aggs) == [k |-> k, prog |-> prog, idx |-> idx, aggs |-> aggs]

\* An aggregation is [f, t, c]: function, type and column
AggName == (1 :> "count") @@ (2 :> "sum") @@ (3 :> "max") @@ (4 :> "min")
AggTypes == [count |-> Scalar, sum |-> Numeric, max |-> {1, 2, 4, 5, 7}, min |-> {1, 2, 4, 5, 7}]

DecodeAgg(c, p) ==      \* [ok, p, v]
  LET h == c[p] \div 16
      t == c[p] % 16
      i == Varint(c, p + 1, 4)
  IN IF c[p] = 16 THEN Good(p + 1, [f |-> "count_all", t |-> 0, c |-> 0])
     ELSE IF h \in 1..4 /\ i.ok /\ t \in AggTypes[AggName[h]]
     THEN Good(i.p, [f |-> AggName[h], t |-> t, c |-> IntSat(i.v)])
     ELSE Bad

\* n items, each decoded by item(p)
Items(p, n, item(_)) ==
  Iterate(LAMBDA d : d.ok /\ Len(d.v) < n,
          LAMBDA d : LET r == TLCEval(item(d.p)) IN TLCEval(IF r.ok THEN Good(r.p, Append(d.v, r.v)) ELSE Bad),
          Good(p, <<>>))
DecodeAggs(c, p, n) == Items(p, n, LAMBDA q : IF q > Len(c) THEN Bad ELSE DecodeAgg(c, q))
DecodeIdx(c, p, n) ==
  Items(p, n, LAMBDA q : LET r == TLCEval(Varint(c, q, 4)) IN IF r.ok THEN Good(r.p, IntSat(r.v)) ELSE Bad)

\* Counts that exceed what is left of the code are rejected at once
AggArray(c, p) ==
  LET n == Count(c, p, 8)
  IN IF ~n.ok \/ n.n > Len(c) - n.p + 1 THEN Bad ELSE DecodeAggs(c, n.p, n.n)
IdxArray(c, p) ==
  LET n == Count(c, p + 1, 8)
  IN IF p > Len(c) \/ (p <= Len(c) /\ c[p] /= 97) THEN Bad
     ELSE IF ~n.ok \/ n.n > Len(c) - n.p + 1 THEN Bad
     ELSE DecodeIdx(c, n.p, n.n)

\* The end-of-expression byte of an aggregation may be absent.
SkipEoe(c, p) == IF p <= Len(c) /\ c[p] = CodeEoe THEN p + 1 ELSE p

DecodePlanOp(c, p) ==    \* [ok, p, v]
  CASE c[p] \in {113, 114} ->
         (LET r == TLCEval(DecodeExpr(c, p + 1))
          IN IF r.ok THEN Good(r.p, PlanOp(IF c[p] = 113 THEN "filter" ELSE "project", r.prog, <<>>, <<>>)) ELSE Bad)
    [] c[p] = 115 ->
         (LET x == TLCEval(IdxArray(c, p + 1))
              a == TLCEval(IF x.ok THEN AggArray(c, x.p) ELSE Bad)
          IN IF x.ok /\ a.ok THEN Good(SkipEoe(c, a.p), PlanOp("gagg", <<>>, x.v, a.v)) ELSE Bad)
    [] c[p] = 116 ->
         (LET a == TLCEval(AggArray(c, p + 1))
          IN IF a.ok THEN Good(SkipEoe(c, a.p), PlanOp("agg", <<>>, <<>>, a.v)) ELSE Bad)
    [] OTHER -> Bad

DecodePlan(c) ==
  Iterate(LAMBDA d : d.ok /\ d.p <= Len(c),
          LAMBDA d : LET r == TLCEval(DecodePlanOp(c, d.p))
                     IN TLCEval(IF r.ok THEN [ok |-> TRUE, p |-> r.p, plan |-> Append(d.plan, r.v)]
                                ELSE [ok |-> FALSE, p |-> d.p, plan |-> <<>>]),
          [ok |-> TRUE, p |-> 1, plan |-> <<>>])

---------------------------------------------------------------------------
(* Encoding (canonical), the inverse: see MC_Wire                          *)

RECURSIVE EncVarintAt(_, _)
EncVarintAt(v, acc) ==
  IF NatBits(v) <= 7 THEN Append(acc, NatToInt(v))
  ELSE EncVarintAt(TLCEval(NatShr(v, 7)), TLCEval(Append(acc, 128 + NatToInt(NatLow(v, 7)))))
EncVarint(b) == EncVarintAt(NatNorm(b), <<>>)
EncNum(n) == EncVarint(NatOf(n))

EncConst(t, v) ==
  CASE t \in {1, 2} -> <<16 + t>> \o EncVarint(v[2])
    [] t = TBool -> IF v = True THEN <<19>> ELSE <<35>>
    [] t \in {4, 5} -> <<16 + t>> \o RevSeq(v[2])
    [] t = TString -> <<23>> \o EncNum(Len(v[2])) \o v[2]

EncIns(x) ==
  CASE x.n = "null" -> <<x.t>>
    [] x.n = "const" -> EncConst(x.t, x.v)
    [] x.n = "var" -> <<48 + x.t>> \o EncVarint(IntOf(x.i, 4))
    [] x.n \in {"not", "and", "or"} -> <<LogicCode[x.n]>>
    [] x.n = "cast" -> <<CodeCast, x.t>>
    [] x.n = "cast_c" -> <<CodeCastC, x.t>>
    [] x.n = "fun" -> <<CodeFun, x.t>>
    [] OTHER -> <<OpCode[x.n], x.t>>

Concat(f(_), s) == Fold(LAMBDA x, y : TLCEval(x \o f(y)), <<>>, s)
Encode(prog) == Concat(EncIns, prog)

EncAgg(a) ==
  IF a.f = "count_all" THEN <<16>>
  ELSE <<16 * (CHOOSE h \in 1..4 : AggName[h] = a.f) + a.t>> \o EncNum(a.c)
EncAggs(as) == Concat(EncAgg, as)
EncIdx(is) == Concat(EncNum, is)
EncPlanOp(o) ==
  CASE o.k = "filter"  -> <<113>> \o Encode(o.prog) \o <<0>>
    [] o.k = "project" -> <<114>> \o Encode(o.prog) \o <<0>>
    [] o.k = "gagg" -> <<115, 97>> \o EncNum(Len(o.idx)) \o EncIdx(o.idx)
                       \o EncNum(Len(o.aggs)) \o EncAggs(o.aggs) \o <<0>>
    [] o.k = "agg" -> <<116>> \o EncNum(Len(o.aggs)) \o EncAggs(o.aggs) \o <<0>>
EncodePlan(plan) == Concat(EncPlanOp, plan)
=============================================================================
