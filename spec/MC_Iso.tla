------------------------------- MODULE MC_Iso -------------------------------
(***************************************************************************)
(* Isolation: the calls of several users, each with objects of his own,    *)
(* interleaved in every way.  What a user sees, and what becomes of his    *)
(* objects, depends on his own calls alone.                                *)
(*                                                                         *)
(* The users: one with a runner that he decodes, runs, decodes again in    *)
(* vain and anew; one with a runner of the same program on other data; one *)
(* with a plan that filters and aggregates; one with a plan of the same    *)
(* code that he destroys and makes again.                                  *)
(*                                                                         *)
(* An event of the history comes with what the library would answer; the   *)
(* answers are those of the user being alone (Alone), and every one must   *)
(* be right in every interleaving.                                         *)
(***************************************************************************)
EXTENDS System, FiniteSets

N32(n) == I32(IntOf(n, 4))
N64(n) == I64(IntOf(n, 8))
Code1 == <<49, 0, 49, 1, 131, 1>>                        \* $0 + $1
Bad1 == <<49, 0, 131>>
PlanCode == EncodePlan(<<PlanOp("filter", <<Ins("var", 1, Null, 0), Ins("const", 1, N32(1), 0), OpIns("gt", 1)>>, <<>>, <<>>),
                         PlanOp("agg", <<>>, <<>>, <<[f |-> "count_all", t |-> 0, c |-> 0], [f |-> "sum", t |-> 1, c |-> 1]>>)>>)

Dec(op, code, ok, pos) == [op |-> op, code |-> code, al |-> 0, dec |-> IF ok THEN "ok" ELSE "err", pos |-> pos, fr |-> <<>>]
X(x, e) == [x |-> x] @@ e
Run1(x, a, b) == <<[op |-> "tset", t |-> x, row |-> <<N32(a), N32(b)>>], [op |-> "xbind", x |-> x, t |-> x],
                   [op |-> "xrun", x |-> x, run |-> "ok"], [op |-> "xget", x |-> x, gk |-> "ok", get |-> N32(a + b)]>>
User1 == <<[op |-> "xnew", x |-> 1], X(1, Dec("xdec", Code1, TRUE, 6))>> \o Run1(1, 3, 4) \o
         <<X(1, Dec("xdec", Bad1, FALSE, 0)), X(1, Dec("xdec", Code1, TRUE, 6))>> \o Run1(1, 5, -6)
User2 == <<[op |-> "xnew", x |-> 2], X(2, Dec("xdec", Code1, TRUE, 6))>> \o Run1(2, 10, 20)

P(p, e) == [p |-> p] @@ e
PutE(p, id, a, b) == [op |-> "rput", p |-> p, id |-> id, row |-> <<N32(a), N32(b)>>, k |-> "none", out |-> <<>>, rid |-> 0, h |-> 0, fr |-> <<id>>]
GetE(p, k, row) == [op |-> "rget", p |-> p, k |-> k, out |-> row, rid |-> 0, h |-> 0, fr |-> <<>>]
User3 == <<[op |-> "rnew", p |-> 1], P(1, Dec("rdec", PlanCode, TRUE, Len(PlanCode))), PutE(1, 11, 5, 7), PutE(1, 12, 0, 9), PutE(1, 13, 2, 3),
           GetE(1, "row", <<N64(2), N32(10)>>), GetE(1, "none", <<>>)>>
User4 == <<[op |-> "rnew", p |-> 2], P(2, Dec("rdec", PlanCode, TRUE, Len(PlanCode))), PutE(2, 21, 2, -1),
           [op |-> "rdel", p |-> 2, fr |-> <<>>],
           [op |-> "rnew", p |-> 2], P(2, Dec("rdec", PlanCode, TRUE, Len(PlanCode))), PutE(2, 22, 3, 100), GetE(2, "row", <<N64(1), N32(100)>>)>>

CONSTANT Who        \* the users taking part
Users == <<User1, User2, User3, User4>>

VARIABLES s, pc, ok
vars == <<s, pc, ok>>
Init == s = Start /\ pc = [u \in 1..4 |-> 0] /\ ok = TRUE
Next == \E u \in Who :
          /\ pc[u] < Len(Users[u])
          /\ LET r == Do(s, Users[u][pc[u] + 1]) IN s' = r.s /\ ok' = r.ok
          /\ pc' = [pc EXCEPT ![u] = @ + 1]
Spec == Init /\ [][Next]_vars

RECURSIVE After(_, _)
After(u, n) == IF n = 0 THEN Start ELSE Do(After(u, n - 1), Users[u][n]).s
Alone == [u \in 1..4 |-> [n \in 0..Len(Users[u]) |-> After(u, n)]]

\* The objects of the users
Mine(u, z) ==
  [x |-> [i \in DOMAIN z.x \cap {u} |-> z.x[i]], t |-> [i \in DOMAIN z.t \cap {u} |-> z.t[i]],
   p |-> [i \in DOMAIN z.p \cap {u - 2} |-> z.p[i]], rows |-> [i \in DOMAIN z.rows \cap (10 * (u - 2))..(10 * (u - 2) + 9) |-> z.rows[i]]]

AlwaysRight == ok
Unaffected == \A u \in Who : Mine(u, s) = Mine(u, Alone[u][pc[u]])
Nothing == DOMAIN s.x \subseteq Who /\ {p + 2 : p \in DOMAIN s.p} \subseteq Who
=============================================================================
