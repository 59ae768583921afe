------------------------------ MODULE BulkModel ------------------------------
(* Batches of trials, of parties that live shorter or longer, and that are  *)
(* stored and restored, or not.  How a single trial goes is a walk through  *)
(* its steps, at each of which something may be changed.                    *)
EXTENDS Bulk, Randomization

CONSTANTS Sim, Kinds, Batches, Size, Mutation
VARIABLES plan,    \* the batches
          trial,   \* the steps of a trial that were made: <<step, change, outcome>>
          harmed   \* has something been changed?
vars == <<plan, trial, harmed>>

Lives == IF Sim THEN {1, 4, 30, 250, 100000} ELSE {1}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == plan = <<>> /\ trial = <<>> /\ harmed = FALSE
\* A trial of the current batch: all walks
Step ==
    /\ ~Sim /\ plan # <<>> /\ Len(trial) < 3
    /\ \E s \in Steps[plan[Len(plan)].kind] : \E ch \in Changes(s) \cup {"none"} :
          \E o \in IF "Lenient" \in Mutation THEN {"ok", "err"} ELSE Outcomes(s, ch) :
             trial' = Append(trial, <<s, ch, o>>) /\ harmed' = ~Harmless(s, ch)
    /\ UNCHANGED plan
Batch ==
    /\ Len(plan) < Batches
    /\ \E k \in Pick(Kinds), l \in Pick(Lives), st \in Pick(BOOLEAN) :
          plan' = Append(plan, [op |-> "bulk", kind |-> k, n |-> Size, life |-> l, store |-> st])
    /\ trial' = <<>> /\ harmed' = FALSE
Next == Step \/ Batch
Spec == Init /\ [][Next]_vars

\* What was changed is refused, and what was not is accepted; whatever was decoded may be either
Sound == \A i \in 1..Len(trial) : LET x == trial[i] IN
    x[1] # "decode" => (x[3] = "ok") = (Harmless(x[1], x[2]))
Harmed == trial # <<>> => harmed = (trial[Len(trial)][3] = "err" \/ (trial[Len(trial)][1] = "decode" /\ trial[Len(trial)][2] # "none"))
Emit == Sim /\ Len(plan) = Batches => PrintT("SCENARIO " \o ToJson([ops |-> plan]))
=============================================================================
