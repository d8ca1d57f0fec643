------------------------------- MODULE MC_Own -------------------------------
(***************************************************************************)
(* Who releases which row.  The steps inside a call: an operator takes     *)
(* over the row handed to it and passes it on, releases it, replaces it by *)
(* a new one, absorbs it into a cache or fails; fetching takes a row out   *)
(* of a cache.  What operators decide is left open, so this covers all     *)
(* plans of NOps operators on all rows.                                    *)
(*                                                                         *)
(* Rows are numbered in the order of their creation; the caller creates    *)
(* those it puts, the plan all others.  System (aspect "owner") accepts    *)
(* exactly the calls made of such steps: a row the plan never had, or gave *)
(* back, is neither released nor returned by it, and destroying the plan   *)
(* leaves nothing.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS NOps, NRows

VARIABLES
  own,      \* own[r]: "caller", "flight", "cache", "gone"
  made,     \* made[r]: by whom
  at,       \* the operator a row in flight is handed to; 0 outside of calls
  call,     \* "none", "put", "get"
  cached,   \* cached[k]: rows of the cache of operator k
  dead,     \* the plan is destroyed
  freed,    \* rows released during the call by the plan
  given     \* the row returned last, 0 if none was
vars == <<own, made, at, call, cached, dead, freed, given>>

Rows == DOMAIN own
New(o, m) == own' = Append(own, o) /\ made' = Append(made, m)

Init == /\ own = <<>> /\ made = <<>> /\ at = 0 /\ call = "none" /\ dead = FALSE
        /\ cached = [k \in 1..NOps |-> {}] /\ freed = {} /\ given = 0

InFlight == {r \in Rows : own[r] = "flight"}
The(S) == CHOOSE r \in S : TRUE

Put == /\ call = "none" /\ ~dead /\ Len(own) < NRows
       /\ New("flight", "caller") /\ at' = 1 /\ call' = "put" /\ freed' = {} /\ given' = 0
       /\ UNCHANGED <<cached, dead>>
\* A fetch takes a pending row of the first operator that has one
First == {k \in 1..NOps : cached[k] # {} /\ \A j \in 1..(k - 1) : cached[j] = {}}
Take == /\ call = "get" /\ at = 0 /\ InFlight = {}
        /\ \E k \in First : \E r \in cached[k] :
             /\ cached' = [cached EXCEPT ![k] = @ \ {r}]
             /\ own' = [own EXCEPT ![r] = "flight"] /\ at' = k + 1
        /\ UNCHANGED <<made, call, dead, freed, given>>
Get == /\ call = "none" /\ ~dead /\ call' = "get" /\ freed' = {} /\ given' = 0 /\ at' = 0
       /\ UNCHANGED <<own, made, cached, dead>>
End == /\ call = "get" /\ InFlight = {} /\ First = {}       \* nothing left
       /\ call' = "none" /\ UNCHANGED <<own, made, at, cached, dead, freed, given>>

Release(r) == [own EXCEPT ![r] = "gone"]
Operate ==
  /\ at \in 1..NOps
  /\ LET r == The(InFlight) IN
     \/ /\ at' = at + 1 /\ UNCHANGED <<own, made, cached, call, dead, freed, given>>       \* passed on
     \/ \* released: filtered out (a fetch looks further), or failed (the call ends)
        /\ own' = Release(r) /\ freed' = freed \cup {r} /\ at' = 0
        /\ call' \in (IF call = "get" THEN {"get", "none"} ELSE {"none"})
        /\ UNCHANGED <<made, cached, dead, given>>
     \/ \* replaced
        /\ Len(own) < NRows
        /\ own' = Append(Release(r), "flight") /\ made' = Append(made, "plan") /\ freed' = freed \cup {r}
        /\ at' = at + 1 /\ UNCHANGED <<cached, call, dead, given>>
     \/ \* absorbed into a cache, perhaps one that is there
        /\ freed' = freed \cup {r} /\ at' = 0 /\ call' = IF call = "get" THEN "get" ELSE "none"
        /\ \/ cached[at] # {} /\ own' = Release(r) /\ UNCHANGED <<made, cached>>
           \/ /\ Len(own) < NRows
              /\ own' = Append(Release(r), "cache") /\ made' = Append(made, "plan")
              /\ cached' = [cached EXCEPT ![at] = @ \cup {Len(own) + 1}]
        /\ UNCHANGED <<dead, given>>
Return ==
  /\ at = NOps + 1
  /\ LET r == The(InFlight) IN own' = [own EXCEPT ![r] = "caller"] /\ given' = r
  /\ at' = 0 /\ call' = "none" /\ UNCHANGED <<made, cached, dead, freed>>
Destroy ==
  /\ call = "none" /\ ~dead /\ dead' = TRUE
  /\ own' = [r \in Rows |-> IF own[r] = "cache" THEN "gone" ELSE own[r]]
  /\ cached' = [k \in 1..NOps |-> {}] /\ freed' = {} /\ given' = 0
  /\ UNCHANGED <<made, at, call>>
Drop == /\ call = "none" /\ \E r \in Rows : own[r] = "caller" /\ own' = Release(r)
        /\ freed' = {} /\ given' = 0 /\ UNCHANGED <<made, at, call, cached, dead>>

Next == Put \/ Get \/ Take \/ End \/ Operate \/ Return \/ Destroy \/ Drop
Spec == Init /\ [][Next]_vars

OneInFlight == Cardinality(InFlight) = (IF at = 0 THEN 0 ELSE 1)
Owned == \A r \in Rows : (own[r] = "cache") = (\E k \in 1..NOps : r \in cached[k])
\* Between calls nothing is on its way, and a row put is back with the caller or gone
Settled == call = "none" => InFlight = {} /\ (\A r \in Rows : made[r] = "caller" => own[r] \in {"caller", "gone"})
\* A destroyed plan leaves nothing but what the caller was given
Clean == dead => \A r \in Rows : own[r] \in {"caller", "gone"}
\* A released row stays released, a returned one is the caller's until the caller drops it
Once == [][\A r \in Rows : own[r] = "gone" => own'[r] = "gone"]_vars
Kept == [][\A r \in Rows : own[r] = "caller" => (own'[r] = "caller" \/ (freed' = {} /\ call' = "none"))]_vars
\* What System sees of a call: rows released were put by the caller and owned by the plan, or its own
Seen == (call = "none" /\ given # 0) => own[given] = "caller" /\ given \notin freed
=============================================================================
