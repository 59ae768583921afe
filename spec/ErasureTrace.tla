---------------------------- MODULE ErasureTrace ----------------------------
(* Decides whether memory that was given back, when the real code dropped   *)
(* values, was as Erasure demands: of each secret it is known whether the   *)
(* memory that it was in was all zeros when it was given back (zero), held  *)
(* part of the secret (left) or something else (other).  A secret of which  *)
(* nothing was seen (unseen) may only be one whose place is not known.      *)
EXTENDS ErasureTypes, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

All(e, S) == Len(e.cells) = Cells(e.type, e.n) /\ \A i \in 1..Len(e.cells) : e.cells[i] \in S
Allowed(e) ==
    CASE e.op = "reset" -> TRUE
      [] e.op \in {"make", "clone", "look"} -> e.res = "ok" /\ All(e, {"kept"})
      [] e.op = "drop" -> e.res = "ok" /\ All(e, IF e.way \in Vague THEN {"zero", "unseen"} ELSE {"zero"})

Init == l \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED l
Spec == Init /\ [][Next]_l
Judge == Allowed(Trace[l]) \/ PrintT("REJECT " \o ToJson([reject |-> l, event |-> Trace[l], expected |-> "secrets kept until they are dropped, and zeros then"]))
Accepted == TLCGet("stats").distinct = Len(Trace)
=============================================================================
