------------------------------ MODULE Gen_Rel ------------------------------
(***************************************************************************)
(* Enumerates all short histories of putting and fetching on a set of      *)
(* small plans.  A case is [code, acts]: a plan, and what to do with it;   *)
(* an action is a row to put, or the empty row for fetching.               *)
(***************************************************************************)
EXTENDS RelAlg, SequencesExt, Json, IOUtils

I4(n) == I32(IntOf(n, 4))
I8(n) == I64(IntOf(n, 8))
Big == I64(<<0, 0, 0, 0, 0, 1, 0, 0>>)       \* 2^40

V(t, i) == Ins("var", t, Null, i)
C(v) == Ins("const", v[1], v, 0)
O(n, t) == OpIns(n, t)

Filter(p) == PlanOp("filter", p, <<>>, <<>>)
Project(p) == PlanOp("project", p, <<>>, <<>>)
Gagg(idx, aggs) == PlanOp("gagg", <<>>, idx, aggs)
Agg(aggs) == PlanOp("agg", <<>>, <<>>, aggs)
All == [f |-> "count_all", t |-> 0, c |-> 0]
A(f, t, c) == [f |-> f, t |-> t, c |-> c]

\* Columns: INT32 k, INT64 v
VPos == Filter(<<V(2, 1), C(I8(0)), O("gt", 2)>>)
KIs1 == Filter(<<V(1, 0), C(I4(1)), O("eq", 1)>>)
Twice == Project(<<V(2, 1), V(2, 1), O("add", 2), V(1, 0)>>)
Swap == Project(<<V(1, 0), O("neg", 1), V(2, 1)>>)
Narrow == Project(<<V(1, 0), V(2, 1), OpIns("cast_c", 18), OpIns("cast", 33)>>)     \* fails for 2^40
ByK == Gagg(<<0>>, <<All, A("sum", 2, 1)>>)                                        \* k, n, s
ByKS == Gagg(<<0>>, <<A("sum", 2, 1), A("max", 2, 1)>>)
Tot == Agg(<<All, A("count", 2, 1), A("sum", 2, 1), A("min", 2, 1)>>)
Many == Filter(<<V(2, 1), C(I8(1)), O("gt", 2)>>)                                  \* n > 1
NarrowS == Project(<<V(1, 0), V(2, 1), V(2, 2), OpIns("cast_c", 18)>>)            \* fails for large sums
ByN == Gagg(<<1>>, <<All, A("max", 2, 1)>>)

Plans == << <<VPos>>, <<Twice>>, <<Tot>>, <<ByK>>, <<VPos, ByK>>, <<ByK, Many>>, <<ByKS, ByN>>, <<ByK, Tot>>,
            <<Tot, Filter(<<C(False)>>)>>, <<Narrow>>, <<Narrow, ByK>>, <<ByK, NarrowS, Gagg(<<1>>, <<All>>)>>,
            <<Swap, ByK, Many, Project(<<V(2, 2), V(1, 0)>>), Gagg(<<1>>, <<A("min", 2, 0)>>)>>,
            <<Tot, Agg(<<A("sum", 2, 2), All>>)>>, <<Gagg(<<>>, <<All, A("min", 2, 1)>>)>>,
            <<ByK, Many, Filter(<<V(2, 2), O("is_null", 2), O("not", 0)>>)>>,
            <<KIs1, Twice, Filter(<<V(2, 0), C(I8(11)), O("lt", 2)>>)>>,
            <<Gagg(<<0, 1>>, <<All>>), Gagg(<<0>>, <<All, A("sum", 2, 2)>>), Agg(<<A("max", 2, 2)>>)>> >>

Rows == << <<I4(1), I8(5)>>, <<I4(1), Big>>, <<I4(2), Null>>, <<Null, I8(-5)>> >>
Fetch == <<>>
Acts == {Fetch} \cup {Rows[i] : i \in 1..Len(Rows)}

N == 5
VARIABLES plan, first, done
Init == plan \in 1..Len(Plans) /\ first \in Acts /\ done = FALSE
Next == /\ ~done
        /\ ndJsonSerialize(IOEnv.OUT \o "/" \o ToString(plan) \o "-" \o ToString(IF first = Fetch THEN 0 ELSE CHOOSE i \in 1..4 : Rows[i] = first),
              SetToSeq({[code |-> EncodePlan(Plans[plan]), acts |-> <<first>> \o a] : a \in [1..(N - 1) -> Acts]}))
        /\ done' = TRUE /\ UNCHANGED <<plan, first>>
=============================================================================
