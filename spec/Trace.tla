------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks histories recorded from the implementation against System.  A    *)
(* line of the file is one history: [id, ev], ev a sequence of events.     *)
(* One state per event; a history that System does not allow ends in a     *)
(* state "rejected" and is reported.                                       *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

AspectsEnv == {a \in {"alloc", "owner"} : a \in DOMAIN IOEnv}

Histories == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, i, s
vars == <<h, i, s>>

Init == h \in 1..Len(Histories) /\ i = 0 /\ s = Start

Next ==
  /\ i >= 0
  /\ i < Len(Histories[h].ev)
  /\ LET e == Histories[h].ev[i + 1]
         r == TLCEval(Do(s, e))
     IN IF r.ok THEN i' = i + 1 /\ s' = r.s /\ h' = h
        ELSE /\ PrintT(<<"REJECTED", Histories[h].id, i + 1, "expected", r.exp>>)
             /\ i' = -1 /\ s' = Start /\ h' = h
=============================================================================
