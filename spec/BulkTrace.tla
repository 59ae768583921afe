------------------------------ MODULE BulkTrace ------------------------------
(* Decides whether the outcomes of many trials are as Bulk says, and all    *)
(* that should be random was different every time.                          *)
EXTENDS Bulk, IOUtils

CONSTANTS Judged,    \* the steps that are judged
          Fresh      \* whether values must differ
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Allowed(e) ==
    IF e.op = "reset" THEN TRUE
    ELSE /\ \A i \in 1..Len(e.counts) : e.counts[i].step \in Judged => e.counts[i].res \in Outcomes(e.counts[i].step, e.counts[i].change)
         /\ \A s \in Judged \cap Steps[e.kind] : \E i \in 1..Len(e.counts) : e.counts[i].step = s
         /\ Fresh => e.twice = 0

Init == l \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED l
Spec == Init /\ [][Next]_l
Wrong(e) == SelectSeq(e.counts, LAMBDA c : c.step \in Judged /\ c.res \notin Outcomes(c.step, c.change))
Judge == Allowed(Trace[l]) \/ PrintT("REJECT " \o ToJson([reject |-> l,
            event |-> [op |-> Trace[l].op, kind |-> Trace[l].kind, n |-> Trace[l].n, wrong |-> Wrong(Trace[l]), twice |-> Trace[l].twice],
            expected |-> "the same outcome every time, and different values"]))
Accepted == TLCGet("stats").distinct = Len(Trace)
=============================================================================
