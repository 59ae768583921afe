---------------------------- MODULE BuffersTrace ----------------------------
(* Decides whether what was exported, and all buffers that are retained, is *)
(* as Buffers says.  (Of long ones, only a sum of the bytes is told.)       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Trace) : Trace[i].op = "reset"}
VARIABLES l, src, buf     \* buf: name -> [n, sum, v], as seen when it was handed out
vars == <<l, src, buf>>

Of(e, r) == e.heap[CHOOSE i \in 1..Len(e.heap) : e.heap[i].r = r]
Seen(x) == [n |-> x.n, sum |-> x.sum, v |-> x.v]
\* What is retained is as it was.
Retained(e, b) ==
    /\ {e.heap[i].r : i \in 1..Len(e.heap)} = DOMAIN b /\ Len(e.heap) = Cardinality(DOMAIN b)
    /\ \A i \in 1..Len(e.heap) : e.heap[i].margin /\ Seen(e.heap[i]) = b[e.heap[i].r]
Handed(e, n) == e.res = "ok" /\ e.size >= n + 1 /\ e.copied /\ e.end = 0 /\ e.margin
\* What it must hold, where that is known here
Known(e) == IF e.a \in DOMAIN src THEN src[e.a] ELSE IF e.a \in DOMAIN buf THEN buf[e.a].v ELSE <<>>
Holds(e) == e.len < 400 /\ Len(Known(e)) >= e.from + e.len => Of(e, e.o).v = Append(SubSeq(Known(e), e.from + 1, e.from + e.len), 0)

After(e) == CASE e.op \in {"export", "maths"} /\ e.res = "ok" -> (e.o :> Seen(Of(e, e.o))) @@ buf
              [] e.op = "free" -> [x \in DOMAIN buf \ {e.a} |-> buf[x]]
              [] OTHER -> buf
Allowed(e) ==
    CASE e.op = "export" -> IF e.fail THEN e.res = "null" ELSE Handed(e, e.len) /\ Of(e, e.o).n = e.len + 1 /\ Holds(e)
      [] e.op = "maths" -> Handed(e, 32) /\ e.valid /\ e.fresh
      [] e.op = "mathslib" -> e.res = "point" /\ e.valid /\ e.fresh
      [] OTHER -> TRUE

Init == l \in Starts /\ src = <<>> /\ buf = <<>>
Next ==
    /\ l < Len(Trace) /\ Trace[l + 1].op # "reset"
    /\ LET e == Trace[l + 1] IN
       IF e.op = "past"  \* what was exported before, in all the history of the process
       THEN IF e.changed = 0 /\ e.shared = 0 THEN l' = l + 1 /\ UNCHANGED <<src, buf>>
            ELSE PrintT("REJECT " \o ToJson([reject |-> l + 1, event |-> e, expected |-> "all that was ever exported, as it was, in places of its own"])) /\ FALSE
       ELSE
       IF ~(Allowed(e) /\ Retained(e, After(e)))
       THEN PrintT("REJECT " \o ToJson([reject |-> l + 1, event |-> [e EXCEPT !.heap = Len(e.heap)], expected |-> "the bytes and a zero, in a buffer of its own, and all others intact"])) /\ FALSE
       ELSE /\ l' = l + 1
            /\ buf' = After(e)
            /\ src' = CASE e.op = "source" -> (e.o :> e.v) @@ src
                        [] e.op = "overwrite" /\ e.a \in DOMAIN src -> [src EXCEPT ![e.a] = [i \in 1..Len(@) |-> (@[i] + e.s) % 256]]
                        [] OTHER -> src
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").distinct = Len(Trace)
=============================================================================
