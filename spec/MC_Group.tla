------------------------------ MODULE MC_Group ------------------------------
(***************************************************************************)
(* Grouping and aggregating against their definitions: groups are the      *)
(* classes of rows with equal keys (a NaN equals nothing, not even itself, *)
(* so that each row with a NaN is a group; NULL equals NULL; the zeros are *)
(* equal), an aggregate is a function of the multiset of the non-NULL      *)
(* values in the group.  All histories of up to NRows rows.                *)
(***************************************************************************)
EXTENDS RelAlg, FiniteSets, SequencesExt

CONSTANT NRows

N32(n) == I32(IntOf(n, 4))
A(f, t, c) == [f |-> f, t |-> t, c |-> c]
KeyValues == {Null, N32(1), F64V(FZero(F64, TRUE)), F64V(FZero(F64, FALSE)), F64V(FNaN(F64)), I64(IntOf(1, 8)), Str(<<>>)}
DataValues == {Null, N32(-5), I32(IntMax(4))}

Grouped(idx) == PlanOp("gagg", <<>>, idx, <<A("count_all", 0, 0), A("count", 1, 1), A("sum", 1, 1), A("min", 1, 1), A("max", 1, 1)>>)
Single == PlanOp("agg", <<>>, <<>>, Grouped(<<>>).aggs)

VARIABLES rows, c, u
vars == <<rows, c, u>>
Init == rows = <<>> /\ c = <<>> /\ u = <<>>
Next == /\ Len(rows) < NRows
        /\ \E k \in KeyValues : \E v \in DataValues :
             /\ rows' = Append(rows, <<k, v>>)
             /\ c' = CacheAdd(Grouped(<<0>>), c, <<k, v>>)
             /\ u' = CacheAdd(Single, u, <<k, v>>)
Spec == Init /\ [][Next]_vars

\* Rows i and j belong to the same group
NaN(v) == v[1] = TDouble /\ FIsNaN(F64, v[2])
Zero(v) == v[1] = TDouble /\ FIsZero(F64, v[2])
Together(i, j) == i = j \/ (~NaN(rows[i][1]) /\ (rows[i][1] = rows[j][1] \/ (Zero(rows[i][1]) /\ Zero(rows[j][1]))))
I == 1..Len(rows)
Classes == {{j \in I : Together(i, j)} : i \in I}

\* Aggregates of the rows at the positions P, by value
IntAt(v) == IF v = N32(-5) THEN -5 ELSE 2147483647
Has(P) == {i \in P : rows[i][2] # Null}
RECURSIVE Total(_)
Total(P) == IF P = {} THEN IntZero(4) ELSE LET i == CHOOSE i \in P : TRUE IN IntAdd(rows[i][2][2], Total(P \ {i}))
Counter(n) == IF n = 0 THEN Null ELSE I64(IntOf(n, 8))
MinOf(P) == IF P = {} THEN Null ELSE rows[CHOOSE i \in P : \A j \in P : IntAt(rows[i][2]) <= IntAt(rows[j][2])][2]
MaxOf(P) == IF P = {} THEN Null ELSE rows[CHOOSE i \in P : \A j \in P : IntAt(rows[i][2]) >= IntAt(rows[j][2])][2]
Aggregates(P) == <<Counter(Cardinality(P)), Counter(Cardinality(Has(P))), IF Has(P) = {} THEN Null ELSE I32(Total(Has(P))), MinOf(Has(P)), MaxOf(Has(P))>>

\* The first row of a group gives the key
First(P) == CHOOSE i \in P : \A j \in P : i <= j
Partition ==
  /\ Len(c) = Cardinality(Classes)
  /\ {<<n, c[n]>> : n \in 1..Len(c)} =
       {<<Cardinality({Q \in Classes : First(Q) <= First(P)}), <<<<rows[First(P)][1]>>, Aggregates(P)>>>> : P \in Classes}
\* Without grouping: one group of all rows, none without rows
All == u = IF rows = <<>> THEN <<>> ELSE <<<<<<>>, Aggregates(I)>>>>
\* The same in any order of the rows
Replay(o, s) == FoldLeft(LAMBDA d, r : CacheAdd(o, d, r), <<>>, s)
Accs(d) == {<<d[n][1], d[n][2]>> : n \in 1..Len(d)}
Unordered ==
  /\ Replay(Single, Reverse(rows)) = u
  /\ \A n \in 1..(Len(rows) - 1) :
       LET s == SubSeq(rows, n + 1, Len(rows)) \o SubSeq(rows, 1, n)
       IN /\ Replay(Single, s) = u
          /\ {x[2] : x \in Accs(Replay(Grouped(<<0>>), s))} = {x[2] : x \in Accs(c)}
\* Grouping by no column, by a column twice
Degenerate ==
  /\ Replay(Grouped(<<>>), rows) = u
  /\ LET d == Replay(Grouped(<<0, 0>>), rows)
     IN Len(d) = Len(c) /\ \A n \in 1..Len(d) : d[n] = <<c[n][1] \o c[n][1], c[n][2]>>
\* Grouping by both columns refines grouping by one
Refines ==
  LET d == Replay(Grouped(<<0, 1>>), rows)
  IN /\ Len(d) >= Len(c)
     /\ \A n \in 1..Len(d) : \E m \in 1..Len(c) : SameOperand(d[n][1][1], c[m][1][1]) \/ NaN(d[n][1][1])
=============================================================================
