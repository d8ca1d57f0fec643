------------------------------- MODULE MC_Rel -------------------------------
(***************************************************************************)
(* Plans as the implementation builds them: operators connected two by     *)
(* two, each pair putting what comes out of its first half into the second *)
(* and fetching from the first half until it is drained (TandemOp).        *)
(*                                                                         *)
(* All plans of up to NOps operators of a catalogue that has one of every  *)
(* kind, every history of NCalls puts and fetches with the rows of the     *)
(* catalogue, and every way of grouping the operators (all binary trees):  *)
(* what comes out and the caches left behind are those of RelAlg, which    *)
(* knows nothing of trees.                                                 *)
(***************************************************************************)
EXTENDS RelAlg, FiniteSets

CONSTANTS NOps, NCalls

N32(n) == I32(IntOf(n, 4))
V(c) == Ins("var", 1, Null, c)
C(n) == Ins("const", 1, N32(n), 0)
A(f, t, c) == [f |-> f, t |-> t, c |-> c]

Catalogue == {
  PlanOp("filter", <<V(0), C(1), OpIns("eq", 1)>>, <<>>, <<>>),                 \* $0 = 1
  PlanOp("filter", <<V(1)>>, <<>>, <<>>),                                       \* $1, no BOOL: fails unless NULL
  PlanOp("project", <<V(1), V(0), OpIns("neg", 1)>>, <<>>, <<>>),               \* $1, - $0
  PlanOp("agg", <<>>, <<>>, <<A("count_all", 0, 0), A("sum", 1, 0)>>),
  PlanOp("gagg", <<>>, <<0>>, <<A("sum", 1, 1)>>),                           \* SUM($1) by $0
  \* fails on big numbers: counters of aggregations are INT64, which $0 is not
  PlanOp("project", <<V(0), V(0), V(0), OpIns("add", 1)>>, <<>>, <<>>)
}
Rows == {<<N32(1), N32(2)>>, <<N32(1), Null>>, <<Null, N32(1)>>, <<N32(2), N32(1)>>}

Plans == UNION {[1..n -> Catalogue] : n \in 1..NOps}

---------------------------------------------------------------------------
\* Trees over the operators i..j
RECURSIVE Trees(_, _)
Trees(i, j) ==
  IF i = j THEN {[leaf |-> i]}
  ELSE UNION {{[l |-> l, r |-> r] : l \in Trees(i, k), r \in Trees(k + 1, j)} : k \in i..(j - 1)}
IsLeaf(t) == "leaf" \in DOMAIN t

RECURSIVE TPut(_, _, _, _)
TPut(plan, t, c, row) ==
  IF IsLeaf(t) THEN PutStep(plan, c, t.leaf, row)
  ELSE LET q == TPut(plan, t.l, c, row)
       IN IF q[2][1] = "row" THEN TPut(plan, t.r, q[1], q[2][2]) ELSE q

RECURSIVE TGet(_, _, _)
TGet(plan, t, c) ==
  IF IsLeaf(t)
  THEN IF IsAgg(plan[t.leaf]) /\ c[t.leaf] # <<>>
       THEN {<<[c EXCEPT ![t.leaf] = Without(@, n)], OutRow(c[t.leaf][n][1] \o c[t.leaf][n][2])>> : n \in 1..Len(c[t.leaf])}
       ELSE {<<c, OutNone>>}
  ELSE UNION {IF q[2][1] = "row"
              THEN LET w == TPut(plan, t.r, q[1], q[2][2])
                   IN IF w[2][1] = "none" THEN TGet(plan, t, w[1]) ELSE {w}
              ELSE IF q[2][1] = "none" THEN TGet(plan, t.r, q[1])
              ELSE {q} : q \in TGet(plan, t.l, c)}

---------------------------------------------------------------------------
VARIABLES plan, caches, calls
vars == <<plan, caches, calls>>

Start == plan \in Plans /\ caches = EmptyCaches(plan) /\ calls = 0
PutRow == \E r \in Rows : LET q == Put(plan, caches, r) IN q[2][1] # "unspec" /\ caches' = q[1]
Fetch == \E q \in Get(plan, caches) : q[2][1] # "unspec" /\ caches' = q[1]
Next == calls < NCalls /\ calls' = calls + 1 /\ UNCHANGED plan /\ (PutRow \/ Fetch)
Spec == Start /\ [][Next]_vars

AnyTree ==
  \A t \in Trees(1, Len(plan)) :
    /\ \A r \in Rows : TPut(plan, t, caches, r) = Put(plan, caches, r)
    /\ TGet(plan, t, caches) = Get(plan, caches)

\* One order stands for all
Sets(q) == <<[i \in 1..Len(plan) |-> {q[1][i][n] : n \in 1..Len(q[1][i])}], q[2]>>
Fewer ==
  /\ GetFewer(plan, caches) \subseteq Get(plan, caches)
  /\ {Sets(q) : q \in GetFewer(plan, caches)} = {Sets(q) : q \in Get(plan, caches)}

OneWay == GetFirst(plan, caches) \in Get(plan, caches)

\* R06: a plan is the plan of its second half behind that of its first half
Half(n) == SubSeq(plan, 1, n)
Rest(n) == SubSeq(plan, n + 1, Len(plan))
Composition ==
  \A n \in 1..(Len(plan) - 1) : \A r \in Rows :
    LET a == Put(Half(n), SubSeq(caches, 1, n), r)
        b == Put(Rest(n), SubSeq(caches, n + 1, Len(plan)), a[2][2])
        whole == Put(plan, caches, r)
    IN IF a[2][1] = "row" THEN whole = <<a[1] \o b[1], b[2]>>
       ELSE whole = <<a[1] \o SubSeq(caches, n + 1, Len(plan)), a[2]>>

\* R01, R02: operators without a cache have no memory
Stateless ==
  (\A i \in 1..Len(plan) : ~IsAgg(plan[i])) =>
    /\ caches = EmptyCaches(plan)
    /\ Get(plan, caches) = {<<caches, OutNone>>}

\* R07: fetching ends, with nothing left, after at most as many rows as there are groups
Groups(c) == Cardinality({<<i, n>> \in (1..Len(plan)) \X (1..20) : n <= Len(c[i])})
RECURSIVE Drains(_)
\* All ways to fetch until the end: sets of bags of outcomes
Drains(c) ==
  UNION {IF q[2][1] = "none" THEN {<<q[1], <<>>>>}
         ELSE IF q[2][1] = "unspec" THEN {<<q[1], <<q[2]>>>>}
         ELSE {<<d[1], Append(d[2], q[2])>> : d \in Drains(q[1])} : q \in Get(plan, c)}
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Draining ==
  LET ds == Drains(caches)
      unspec == \E d \in ds : \E i \in 1..Len(d[2]) : d[2][i][1] = "unspec"
  IN unspec \/
     /\ \A d \in ds : d[1] = EmptyCaches(plan) /\ Len(d[2]) <= Groups(caches)
     /\ Cardinality({Bag(d[2]) : d \in ds}) = 1          \* whatever the order

\* A second fetch after the end yields nothing either
Ended ==
  \A q \in Get(plan, caches) :
    q[2][1] = "none" => q[1] = EmptyCaches(plan) /\ Get(plan, q[1]) = {<<q[1], OutNone>>}

\* One group per key
Keys ==
  \A i \in 1..Len(plan) :
    /\ ~IsAgg(plan[i]) => caches[i] = <<>>
    /\ \A m, n \in 1..Len(caches[i]) : SameTuple(caches[i][m][1], caches[i][n][1]) => m = n
    /\ plan[i].k = "agg" => Len(caches[i]) <= 1
=============================================================================
