------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* What a user of the library sees: expression runners, tuples, plans,     *)
(* rows handed to plans and rows handed back, under any sequence of calls. *)
(*                                                                         *)
(* The state is one record                                                 *)
(*   x     runners: id -> [ok, prog, tup, m]; m is the machine left by the *)
(*         last run, NoRun when there was none since decoding              *)
(*   t     tuples the caller binds: id -> row                              *)
(*   p     plans: id -> [ok, plan, poss]; poss is the set of the caches    *)
(*         the plan may have, given what was fetched so far; {} when its   *)
(*         behaviour is not specified any more                             *)
(*   rows  rows put into plans: id -> [p, own], own \in {"plan", "caller", *)
(*         "gone"}                                                         *)
(*   o     rows returned and kept by the caller: handle -> row             *)
(*                                                                         *)
(* Every call is an event e: a record of the arguments and of what was     *)
(* observed.  Do(s, e) = [ok, s, exp]: may the library behave like that in *)
(* state s, the state afterwards, and what was expected (for reports).     *)
(***************************************************************************)
EXTENDS RelAlg, Text

\* What is looked at besides results: "alloc" (memory asked for while
\* decoding), "owner" (who releases which row, what is left at the end)
CONSTANT Aspects

NoRun == VM("norun", <<>>)
Start == [x |-> <<>>, t |-> <<>>, p |-> <<>>, rows |-> <<>>, o |-> <<>>]

Res(ok, s, exp) == [ok |-> ok, s |-> s, exp |-> exp]
Set(f, k, v) == (k :> v) @@ f
Drop(f, k) == [i \in DOMAIN f \ {k} |-> f[i]]

(***************************************************************************)
(* Decoding: success exactly when specified, at exactly the position, and  *)
(* without asking for memory out of proportion to the code.                *)
(***************************************************************************)
AllocBound(len) == 65536 + 1024 * len
DecodeOk(d, e) ==
  /\ "alloc" \in Aspects => e.al <= AllocBound(Len(e.code))
  /\ IF d.ok THEN e.dec = "ok" /\ e.pos = d.p - 1 ELSE e.dec \notin {"ok", "other"}

---------------------------------------------------------------------------
(* The functions the decoders are made of                                  *)

\* Types of C++
ImmOf(c, p, t) == CASE t \in {"i", "u"} -> Immediate(c, p, TInt32)
                   [] t \in {"l", "ll", "ul", "ull"} -> Immediate(c, p, TInt64)
                   [] t = "f" -> Immediate(c, p, TFloat)
                   [] t = "d" -> Immediate(c, p, TDouble)
                   [] t = "s" -> Immediate(c, p, TString)

\* A count and as many immediates
ArrayOf(c, p, t) ==
  LET n == TLCEval(Count(c, p, 8))
      next(d) == LET r == TLCEval(ImmOf(c, d.p, t))
                 IN TLCEval([ok |-> r.ok, p |-> r.p, v |-> Append(d.v, r.v)])
  IN IF ~n.ok \/ n.n > Len(c) - n.p + 1 THEN Bad
     ELSE Iterate(LAMBDA d : d.ok /\ Len(d.v) < n.n, next, Good(n.p, <<>>))

DoC(s, e) ==
  LET d == TLCEval(IF e.op = "cval" THEN ImmOf(e.code, 1, e.t) ELSE ArrayOf(e.code, 1, e.t))
  IN Res(/\ "alloc" \in Aspects => e.al <= AllocBound(Len(e.code))
         /\ IF d.ok THEN e.k = "ok" /\ e.pos = d.p - 1 /\ e.v = d.v ELSE e.k \notin {"ok", "other"},
         s, d)

---------------------------------------------------------------------------
(* Runners                                                                 *)

RunOk(m, k) ==
  CASE m.st = "ok" -> k = "ok"
    [] m.st = "err" -> k \in {"err", "limit"}
    [] m.st = "limit" -> k = "limit"
    [] m.st = "unspec" -> TRUE

\* The result on top, as reported by Get
GetOk(m, k, v) ==
  IF m.st # "ok" THEN TRUE
  ELSE IF m.stack = <<>> THEN k = "err"
  ELSE k = "ok" /\ Matches(Top(m.stack), v)

AllOk(m, k, vs) == m.st = "ok" => (k = "ok" /\ MatchesAll(m.stack, vs))

\* The result on top as an optional of type t
OptOk(m, t, k, v) ==
  IF m.st # "ok" THEN TRUE
  ELSE IF m.stack = <<>> THEN k = "err"
  ELSE LET r == Top(m.stack)
       IN IF r = Null THEN k = "ok" /\ v = Null
          ELSE IF r[1] = t \/ (r[1] = -3 /\ t = TDouble) THEN k = "ok" /\ Matches(r, v)
          ELSE k = "err"

\* Decode, bind, run and read everything with a fresh runner
DoEv(s, e) ==
  LET d == TLCEval(DecodeExpr(e.code, 1))
      m == TLCEval(Run(d.prog, IF e.bound THEN Bound(e.row) ELSE NoTuple))
      ok == /\ DecodeOk(d, e)
            /\ d.ok => /\ RunOk(m, e.run)
                       /\ e.type = IF d.prog = <<>> THEN -1 ELSE ProgType(d.prog)
                       /\ m.st = "ok" => AllOk(m, e.ak, e.all) /\ GetOk(m, e.gk, e.get)
  IN Res(ok, s, IF d.ok THEN <<d.p - 1, m, IF d.prog # <<>> THEN ProgType(d.prog) ELSE -1>> ELSE "no such code")

NewRunner == [ok |-> FALSE, prog |-> <<>>, tup |-> 0, m |-> NoRun]

DoX(s, e) ==
  CASE e.op = "xnew" -> Res(TRUE, [s EXCEPT !.x = Set(@, e.x, NewRunner)], "")
    [] e.op = "xdel" -> Res(TRUE, [s EXCEPT !.x = Drop(@, e.x)], "")
    [] e.op = "xdec" ->
         (LET d == TLCEval(DecodeExpr(e.code, 1))
          IN Res(DecodeOk(d, e),
                 [s EXCEPT !.x[e.x] = [ok |-> d.ok, prog |-> d.prog, tup |-> @.tup, m |-> NoRun]],
                 <<d.ok, d.p - 1>>))
    [] e.op = "xbind" -> Res(TRUE, [s EXCEPT !.x[e.x].tup = e.t], "")
    [] e.op = "xrun" ->
         (LET r == s.x[e.x]
              \* what is left of a failed decoding is not specified
              m == IF ~r.ok THEN NoRun
                   ELSE TLCEval(Run(r.prog, IF r.tup = 0 THEN NoTuple ELSE Bound(s.t[r.tup])))
          IN Res(r.ok => RunOk(m, e.run), [s EXCEPT !.x[e.x].m = m], m))
    [] e.op = "xrep" ->       \* run and read, again and again
         (LET r == s.x[e.x]
              m == IF ~r.ok THEN NoRun
                   ELSE TLCEval(Run(r.prog, IF r.tup = 0 THEN NoTuple ELSE Bound(s.t[r.tup])))
          IN Res((r.ok /\ m.st # "unspec") => (e.same /\ RunOk(m, e.run) /\ AllOk(m, e.ak, e.all)),
                 [s EXCEPT !.x[e.x].m = m], m))
    [] e.op = "xtype" ->
         (LET r == s.x[e.x]
          IN Res((r.ok /\ r.prog # <<>>) => e.type = ProgType(r.prog), s,
                 IF r.ok /\ r.prog # <<>> THEN ProgType(r.prog) ELSE -1))
    [] e.op = "xget" -> Res(GetOk(s.x[e.x].m, e.gk, e.get), s, s.x[e.x].m)
    [] e.op = "xall" -> Res(AllOk(s.x[e.x].m, e.ak, e.all), s, s.x[e.x].m)
    [] e.op = "xopt" -> Res(OptOk(s.x[e.x].m, e.t, e.k, e.v), s, s.x[e.x].m)

DoT(s, e) ==
  CASE e.op = "tset" -> Res(TRUE, [s EXCEPT !.t = Set(@, e.t, e.row)], "")
    [] e.op = "tdel" -> Res(TRUE, [s EXCEPT !.t = Drop(@, e.t)], "")
    [] e.op = "tget" -> Res(e.row = s.t[e.t], s, s.t[e.t])

---------------------------------------------------------------------------
(* Plans and the ownership of rows                                         *)

NewPlan == [ok |-> FALSE, plan |-> <<>>, poss |-> {}]

RowsOf(s, p) == {r \in DOMAIN s.rows : s.rows[r].p = p /\ s.rows[r].own = "plan"}

\* The rows in e.fr were released: only the plan's own
ReleaseOk(s, e) == "owner" \in Aspects => \A i \in 1..Len(e.fr) : e.fr[i] \in RowsOf(s, e.p)
Release(s, e) ==
  [s EXCEPT !.rows = [r \in DOMAIN @ |-> IF \E i \in 1..Len(e.fr) : e.fr[i] = r
                                          THEN [@[r] EXCEPT !.own = "gone"] ELSE @[r]]]

AllGone(s, p) == "owner" \in Aspects => RowsOf(s, p) = {}

\* A returned row: a new one, or one that the plan still owned
HandOk(s, e) == (e.k = "row" /\ "owner" \in Aspects) => (e.rid = 0 \/ e.rid \in RowsOf(s, e.p))
Hand(s, e) ==
  IF e.k # "row" THEN s
  ELSE LET s1 == IF e.rid \in DOMAIN s.rows THEN [s EXCEPT !.rows[e.rid].own = "caller"] ELSE s
       IN IF e.h = 0 THEN s1 ELSE [s1 EXCEPT !.o = Set(@, e.h, e.out)]

\* The caches after outcomes `outs` (a set of <<caches, outcome>>), as observed
Follow(outs, e) == {r[1] : r \in {r \in outs : OutMatches(r[2], e.k, e.out)}}
Unspecified(outs) == \E r \in outs : r[2][1] = "unspec"

Own(s, e) == Hand(Release(s, e), e)
OwnOk(s, e) == ReleaseOk(s, e) /\ HandOk(Release(s, e), e)

\* Results of fetching until the end, from one of the possible caches: all
\* orders of fetching have the same results (the traces see to that).
DrainFrom(plan, c0) ==
  LET next(d) ==
        LET r == TLCEval(GetFirst(plan, d.c))
        IN TLCEval(CASE r[2][1] = "row" -> [d EXCEPT !.c = r[1], !.rows = Append(@, r[2][2])]
                     [] r[2][1] = "none" -> [d EXCEPT !.st = "ok"]
                     [] r[2][1] \in {"err", "limit"} -> [d EXCEPT !.c = r[1], !.errs = @ + 1]
                     [] OTHER -> [d EXCEPT !.st = "unspec"])
  IN Iterate(LAMBDA d : d.st = "more", next, [st |-> "more", c |-> c0, rows |-> <<>>, errs |-> 0])

SameRows(rs, obs) ==     \* as multisets
  LET first(d, r) == SkipWhile(LAMBDA k : ~RowMatches(r, d.obs[k]), 1, Len(d.obs))
      next(d, r) == IF ~d.ok THEN d
                    ELSE LET i == TLCEval(first(d, r))
                         IN TLCEval(IF i > Len(d.obs) THEN [d EXCEPT !.ok = FALSE] ELSE [d EXCEPT !.obs = Without(@, i)])
      d == Fold(next, [ok |-> TRUE, obs |-> obs], rs)
  IN d.ok /\ d.obs = <<>>

DoR(s, e) ==
  CASE e.op = "rnew" -> Res(TRUE, [s EXCEPT !.p = Set(@, e.p, NewPlan)], "")
    [] e.op = "rdel" ->
         (LET s1 == Release(s, e)
          IN Res(ReleaseOk(s, e) /\ AllGone(s1, e.p), [s1 EXCEPT !.p = Drop(@, e.p)], RowsOf(s, e.p)))
    [] e.op = "rdec" ->
         (LET d == TLCEval(DecodePlan(e.code))
              s1 == Release(s, e)
          IN Res(DecodeOk(d, e) /\ ReleaseOk(s, e) /\ (d.ok => AllGone(s1, e.p)),
                 [s1 EXCEPT !.p[e.p] = [ok |-> d.ok, plan |-> d.plan,
                                        poss |-> IF d.ok THEN {EmptyCaches(d.plan)} ELSE {}]],
                 <<d.ok, d.p - 1, RowsOf(s, e.p)>>))
    [] e.op = "rput" ->
         (LET q == s.p[e.p]
              s1 == [s EXCEPT !.rows = Set(@, e.id, [p |-> e.p, own |-> "plan"])]
              outs == TLCEval({Put(q.plan, c, e.row) : c \in q.poss})
              next == TLCEval(IF Unspecified(outs) THEN {} ELSE Follow(outs, e))
          IN Res(OwnOk(s1, e) /\ (q.poss = {} \/ Unspecified(outs) \/ next # {}),
                 [Own(s1, e) EXCEPT !.p[e.p].poss = next], {r[2] : r \in outs}))
    [] e.op = "rpass" ->      \* a row that was returned goes into a plan
         (LET q == s.p[e.p]
              s0 == [s EXCEPT !.o = Drop(@, e.from)]
              s1 == [s0 EXCEPT !.rows = Set(@, e.id, [p |-> e.p, own |-> "plan"])]
              outs == TLCEval({Put(q.plan, c, e.row) : c \in q.poss})
              next == TLCEval(IF Unspecified(outs) THEN {} ELSE Follow(outs, e))
          IN IF e.from \notin DOMAIN s.o THEN Res(e.none, s, "no row was returned")
             ELSE Res(/\ ~e.none /\ e.row = s.o[e.from]
                      /\ OwnOk(s1, e) /\ (q.poss = {} \/ Unspecified(outs) \/ next # {}),
                      [Own(s1, e) EXCEPT !.p[e.p].poss = next], {r[2] : r \in outs}))
    [] e.op = "rrep" ->       \* the same rows, again and again
         (LET q == s.p[e.p]
              m == Len(e.rows)
              st == [ok |-> TRUE, un |-> FALSE, c |-> <<>>, n |-> 0]
              next(d) == LET j == (d.n % m) + 1
                             r == TLCEval(Put(q.plan, d.c, e.rows[j]))
                         IN TLCEval([ok |-> OutMatches(r[2], e.outs[j].k, e.outs[j].out), un |-> r[2][1] = "unspec",
                                     c |-> r[1], n |-> d.n + 1])
              ds == TLCEval({Iterate(LAMBDA d : d.ok /\ ~d.un /\ d.n < m * e.n, next, [st EXCEPT !.c = c]) : c \in q.poss})
              un == \E d \in ds : d.un
              fit == {d.c : d \in {d \in ds : d.ok}}
          IN Res(q.poss = {} \/ un \/ (e.same /\ fit # {}),
                 [s EXCEPT !.p[e.p].poss = IF un THEN {} ELSE fit], ds))
    [] e.op = "rget" ->
         (LET q == s.p[e.p]
              outs == TLCEval(UNION {GetFewer(q.plan, c) : c \in q.poss})
              next == TLCEval(IF Unspecified(outs) THEN {} ELSE Follow(outs, e))
          IN Res(OwnOk(s, e) /\ (q.poss = {} \/ Unspecified(outs) \/ next # {}),
                 [Own(s, e) EXCEPT !.p[e.p].poss = next], {r[2] : r \in outs}))
    [] e.op = "rdrain" ->
         (LET q == s.p[e.p]
              s1 == Release(s, e)
              ds == TLCEval({DrainFrom(q.plan, c) : c \in q.poss})
              un == \E d \in ds : d.st = "unspec"
              \* k = "more": the caller gave up
              ok == e.k = "end" /\ \E d \in ds : e.errs = d.errs /\ SameRows(d.rows, e.rows)
          IN IF q.poss = {} THEN Res(ReleaseOk(s, e), s1, "")
             ELSE Res(ReleaseOk(s, e) /\ (un \/ ok),
                      [s1 EXCEPT !.p[e.p].poss = IF un THEN {} ELSE {EmptyCaches(q.plan)}], ds))

DoO(s, e) ==
  CASE e.op = "oget" ->
         (IF e.h \in DOMAIN s.o THEN Res(~e.none /\ e.row = s.o[e.h], s, s.o[e.h]) ELSE Res(e.none, s, "no row was returned"))
    [] e.op = "odel" -> Res(e.none = (e.h \notin DOMAIN s.o), [s EXCEPT !.o = Drop(@, e.h)], "")

---------------------------------------------------------------------------
(* The end of a history: everything the caller owns is destroyed, nothing  *)
(* must be left, and every block was released the way it was allocated.    *)
DoEnd(s, e) == Res("owner" \in Aspects => (e.live = 0 /\ e.mis = 0), Start, "nothing left")

---------------------------------------------------------------------------
(* Values                                                                  *)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexText(b) == [i \in 1..(2 * Len(b)) |-> HexDigit(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]
UpperText(s) == [i \in 1..Len(s) |-> Upper1(s[i])]
HexValue(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1

DoU(s, e) ==
  CASE e.op = "ueq" ->
         (LET q == SameOperand(e.a, e.b)
          IN Res(/\ e.eq = q /\ e.ne = ~q
                 /\ e.nul = (e.a = Null) /\ e.nn = (e.a # Null)
                 /\ q => e.hs
                 /\ e.hc /\ e.cp = e.a, s, q))
    [] e.op = "utup" ->
         (LET q == SameTuple(e.a, e.b) IN Res(e.eq = q /\ (q => e.hs), s, q))
    [] e.op = "ucat" -> Res(e.k = "ok" /\ e.r = e.a \o e.b, s, e.a \o e.b)
    [] e.op = "umap" ->
         (LET r == [i \in 1..Len(e.idx) |-> e.a[e.idx[i] + 1]] IN Res(e.k = "ok" /\ e.r = r, s, r))
    [] e.op = "uany" ->
         (IF e.a = Null \/ e.a[1] = e.t
          THEN Res(e.k = "ok" /\ e.r = e.a /\ e.has = (e.a # Null), s, e.a)
          ELSE Res(e.k # "ok", s, "a type error"))
    [] e.op = "uhex" ->
         Res(UpperText(e.text) = HexText(e.a) /\ UpperText(e.text2) = HexText(e.a) /\ e.back = e.a /\ e.back2 = e.a /\ e.back3 = e.a,
             s, HexText(e.a))
    [] e.op = "uname" -> Res(e.text = TypeText(e.a), s, TypeText(e.a))
    [] e.op = "ustr" -> Res(TextOk(e.a, e.text), s, "its value")
    [] e.op = "unib" -> Res(e.hex = HexValue(e.a) /\ (e.a \in 0..15 => HexValue(e.nib) = e.a), s, HexValue(e.a))

Do(s, e) ==
  CASE e.op = "ev" -> DoEv(s, e)
    [] e.op \in {"cval", "carr", "cvec"} -> DoC(s, e)
    [] e.op \in {"xnew", "xdel", "xdec", "xbind", "xrun", "xrep", "xtype", "xget", "xall", "xopt"} -> DoX(s, e)
    [] e.op \in {"tset", "tdel", "tget"} -> DoT(s, e)
    [] e.op \in {"rnew", "rdel", "rdec", "rput", "rpass", "rrep", "rget", "rdrain"} -> DoR(s, e)
    [] e.op \in {"oget", "odel"} -> DoO(s, e)
    [] e.op = "end" -> DoEnd(s, e)
    [] e.op \in {"ueq", "utup", "ucat", "umap", "uany", "uhex", "unib", "uname", "ustr"} -> DoU(s, e)
    [] OTHER -> Res(FALSE, s, "the process to survive")      \* "crash", "hang", "race"
=============================================================================
