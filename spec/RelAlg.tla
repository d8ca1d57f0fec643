------------------------------- MODULE RelAlg -------------------------------
(***************************************************************************)
(* Relational plans: chains of filters, projections and aggregations that  *)
(* rows are put into one by one and results are fetched from.              *)
(*                                                                         *)
(* The state of a plan is a sequence with one cache per operator; a cache  *)
(* is a sequence of entries <<key, accumulators>> (at most one entry, with *)
(* the empty key, for an ungrouped aggregation; none for the others).      *)
(*                                                                         *)
(* Which pending group is fetched next is not specified, so fetching is a  *)
(* relation: PlanGet yields the set of possible <<state, output>>.         *)
(*                                                                         *)
(* An outcome is <<status, row>>: "row" with a row, "none" without, "err", *)
(* "limit", or "unspec" when the plan behaves in an unspecified way from   *)
(* here on (a type error inside an aggregation).                           *)
(***************************************************************************)
EXTENDS ExprVM

OutRow(r) == <<"row", r>>
OutNone == <<"none", <<>>>>
OutFail(st) == <<st, <<>>>>

EmptyCaches(plan) == [i \in 1..Len(plan) |-> <<>>]

---------------------------------------------------------------------------
(* Aggregations                                                            *)

Col(row, c) == IF c < 0 \/ c >= Len(row) THEN Unspec ELSE row[c + 1]    \* the caller's duty

CountOne == I64(IntOne(8))

\* The accumulator after one more row
AggAdd(a, acc, row) ==
  IF a.f = "count_all" THEN IF acc = Null THEN CountOne ELSE I64(IntAdd(acc[2], IntOne(8)))
  ELSE LET v == Col(row, a.c)
       IN IF IsUnspec(v) \/ IsUnspec(acc) THEN Unspec
          ELSE IF v = Null THEN acc
          ELSE IF a.f = "count" THEN IF acc = Null THEN CountOne ELSE I64(IntAdd(acc[2], IntOne(8)))
          ELSE IF v[1] /= a.t THEN Unspec
          ELSE IF acc = Null THEN v
          ELSE Apply(IF a.f = "sum" THEN "add" ELSE a.f, a.t, <<acc, v>>)

NoAccs(o) == TLCEval([i \in 1..Len(o.aggs) |-> Null])
AddRow(o, accs, row) == TLCEval([i \in 1..Len(o.aggs) |-> TLCEval(AggAdd(o.aggs[i], accs[i], row))])

KeyOf(o, row) == TLCEval([i \in 1..Len(o.idx) |-> Col(row, o.idx[i])])

\* The entry with the key, 0 if there is none
FindKey(cache, key) ==
  LET i == SkipWhile(LAMBDA k : ~SameTuple(cache[k][1], key), 1, Len(cache))
  IN IF i > Len(cache) THEN 0 ELSE i

CacheAdd(o, cache, row) ==
  LET key == TLCEval(KeyOf(o, row))
      i == FindKey(cache, key)
  IN IF i = 0 THEN Append(cache, <<key, AddRow(o, NoAccs(o), row)>>)
     ELSE [cache EXCEPT ![i] = <<@[1], AddRow(o, @[2], row)>>]

HasUnspec(row) == \E i \in 1..Len(row) : ~IsValue(row[i])

---------------------------------------------------------------------------
(* Put: a row through the operators i, i + 1, ... of the plan: deterministic *)

IsAgg(o) == o.k \notin {"filter", "project"}

\* The outcome of a filter or projection on a row
RowStep(o, row) ==
  LET m == TLCEval(Run(o.prog, Bound(row)))
  IN IF m.st /= "ok" THEN OutFail(m.st)
     ELSE IF o.k = "project" THEN OutRow(m.stack)
     ELSE IF m.stack = <<>> THEN OutFail("err")
     ELSE LET v == Top(m.stack)
          IN IF ~IsValue(v) THEN OutFail("err")   \* a number, not a BOOL
             ELSE IF v = Null THEN OutNone
             ELSE IF v[1] /= TBool THEN OutFail("err")
             ELSE IF v = True THEN OutRow(row)
             ELSE OutNone

\* One operator: <<caches, outcome>>
PutStep(plan, caches, i, row) ==
  IF ~IsAgg(plan[i]) THEN <<caches, RowStep(plan[i], row)>>
  ELSE LET c == TLCEval(CacheAdd(plan[i], caches[i], row))
       IN IF \E e \in 1..Len(c) : HasUnspec(c[e][1]) \/ HasUnspec(c[e][2])
          THEN <<caches, OutFail("unspec")>>
          ELSE <<TLCEval([caches EXCEPT ![i] = c]), OutNone>>

\* From operator i on, as long as a row comes out, or into an aggregation
PutAt(plan, caches, i, row) ==
  LET next(d) == TLCEval([i |-> d.i + 1, out |-> RowStep(plan[d.i], d.out[2])])
      d == Iterate(LAMBDA d : d.out[1] = "row" /\ d.i <= Len(plan) /\ ~IsAgg(plan[d.i]), next, [i |-> i, out |-> OutRow(row)])
  IN IF d.out[1] = "row" /\ d.i <= Len(plan) THEN PutStep(plan, caches, d.i, d.out[2]) ELSE <<caches, d.out>>

Put(plan, caches, row) == PutAt(plan, caches, 1, row)

---------------------------------------------------------------------------
(* Get: a pending result of the first aggregation that has any goes       *)
(* through all later operators; when nothing comes out, the next one is    *)
(* taken; a failing one is lost.  MC_Rel shows that this is what results   *)
(* from connecting the operators two by two, however they are grouped.     *)

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* The first operator with pending results; beyond the plan if there is none
Pending(caches) == SkipWhile(LAMBDA i : caches[i] = <<>>, 1, Len(caches))

\* Handing out entry n of operator k
Hand1(plan, caches, k, n) ==
  PutAt(plan, [caches EXCEPT ![k] = Without(@, n)], k + 1, caches[k][n][1] \o caches[k][n][2])

Get(plan, caches) ==
  LET next(d) ==
        LET more(c) == LET k == TLCEval(Pending(c))
                       IN IF k > Len(plan) THEN {<<c, OutNone>>}
                          ELSE {TLCEval(Hand1(plan, c, k, n)) : n \in 1..Len(c[k])}
            rs == TLCEval(UNION {more(c) : c \in d.from})
            again == {r \in rs : r[2][1] = "none" /\ Pending(r[1]) <= Len(plan)}
        IN TLCEval([from |-> {r[1] : r \in again}, done |-> d.done \cup (rs \ again)])
  IN Iterate(LAMBDA d : d.from # {}, next, [from |-> {caches}, done |-> {}]).done

(***************************************************************************)
(* The same relation, save the order of the groups inside a later          *)
(* aggregation: nothing comes out while one aggregation is absorbed by a   *)
(* later one, and when the latter does not depend on the order of its      *)
(* rows, one order stands for all.  MC_Rel compares the two.               *)
(***************************************************************************)
OrderFree(o) ==
  \A i \in 1..Len(o.aggs) :
    \/ o.aggs[i].f \in {"count_all", "count"}
    \/ o.aggs[i].f = "sum" /\ o.aggs[i].t \in {TInt32, TInt64}
    \/ o.aggs[i].f \in {"min", "max"} /\ o.aggs[i].t \in {TInt32, TInt64, TBool, TString}

NextAgg(plan, k) == SkipWhile(LAMBDA i : ~IsAgg(plan[i]), k + 1, Len(plan))

\* All groups of operator k, one after the other, into what follows: <<caches, outcome of the first that is not "none">>
HandAll(plan, caches, k) ==
  LET next(d) == LET r == TLCEval(Hand1(plan, d[1], k, 1)) IN r
  IN Iterate(LAMBDA d : d[2][1] = "none" /\ d[1][k] # <<>>, next, <<caches, OutNone>>)

GetFewer(plan, caches) ==
  LET next(d) ==
        LET each(c, k) == {TLCEval(Hand1(plan, c, k, n)) : n \in 1..Len(c[k])}
            merge(c, k) == LET j == NextAgg(plan, k)
                           IN IF j > Len(plan) THEN each(c, k)
                              ELSE IF ~OrderFree(plan[j]) THEN each(c, k)
                              ELSE LET r == TLCEval(HandAll(plan, c, k)) IN IF r[2][1] = "none" THEN {r} ELSE each(c, k)
            more(c) == LET k == TLCEval(Pending(c))
                       IN IF k > Len(plan) THEN {<<c, OutNone>>} ELSE merge(c, k)
            rs == TLCEval(UNION {more(c) : c \in d.from})
            again == {r \in rs : r[2][1] = "none" /\ Pending(r[1]) <= Len(plan)}
        IN TLCEval([from |-> {r[1] : r \in again}, done |-> d.done \cup (rs \ again)])
  IN Iterate(LAMBDA d : d.from # {}, next, [from |-> {caches}, done |-> {}]).done

(***************************************************************************)
(* One way of fetching: the pending groups in the order of their creation. *)
(* MC_Rel checks that it is one of the ways of Get.                        *)
(***************************************************************************)
GetFirst(plan, caches) ==
  LET next(d) == LET k == TLCEval(Pending(d.r[1]))
                 IN TLCEval(IF k > Len(plan) THEN [more |-> FALSE, r |-> <<d.r[1], OutNone>>]
                            ELSE LET r == TLCEval(Hand1(plan, d.r[1], k, 1)) IN [more |-> r[2][1] = "none", r |-> r])
  IN Iterate(LAMBDA d : d.more, next, [more |-> TRUE, r |-> <<caches, OutNone>>]).r

---------------------------------------------------------------------------
RowMatches(r, o) == MatchesAll(r, o)
OutMatches(out, kind, row) ==
  CASE out[1] = "row"  -> kind = "row" /\ RowMatches(out[2], row)
    [] out[1] = "none" -> kind = "none"
    [] out[1] = "err"  -> kind \in {"err", "limit"}
    [] out[1] = "limit" -> kind = "limit"
    [] out[1] = "unspec" -> TRUE
=============================================================================
