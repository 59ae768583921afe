------------------------------ MODULE WireTrace ------------------------------
(* Decides whether what the decoders and encoders did with byte strings is *)
(* what Wire allows.  The world says of every 32 bytes at a multiple of    *)
(* eight which value they are (id, 0 if all are zero), and whether they    *)
(* are the canonical form of a point and of a scalar, and of every eight   *)
(* bytes whether they are the length 32.                                   *)
EXTENDS Wire, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Offsets(ks) == FoldLeft(LAMBDA a, k : Append(a, a[Len(a)] + Width(k)), <<0>>, ks)

ViewOf(e, ks) ==
    LET off == Offsets(ks) IN
    [i \in 1..Len(ks) |->
        LET o == (off[i] \div 8) + 1 IN
        IF ks[i] = "L" THEN [id |-> 0, zero |-> FALSE, good |-> e.l[o] = 1]
        ELSE [id |-> e.id[o], zero |-> e.id[o] = 0, good |-> IF ks[i] = "P" THEN e.p[o] = 1 ELSE e.s[o] = 1]]

\* The object a byte string stands for: [ok, fields]
Object(e) ==
    LET n == Repetitions(e.t, e.len) IN
    IF n = -1 THEN [ok |-> FALSE, fields |-> <<>>]
    ELSE LET ks == Slots(e.t, n) v == ViewOf(e, ks) IN
         IF Stands(e.t, v) THEN [ok |-> TRUE, fields |-> Fields(e.t, ks, v)] ELSE [ok |-> FALSE, fields |-> <<>>]

\* Each way of decoding (bytes; bincode and JSON, from a slice, from a reader, and from a value) comes to the same.
Allowed(e) ==
    CASE e.op = "reset" -> TRUE
      [] e.op = "wrapped" -> \A i \in 1..Len(e.res) : e.res[i] = "err"
      [] e.op = "ends" -> e.ok = 0 /\ e.panic = 0 /\ e.tried > 1000 /\ Size(Slots(e.t, 1)) % 8 = 0      \* every length is a multiple of eight
      [] e.op = "wire" ->
            LET x == Object(e) want == IF x.ok THEN "ok" ELSE "err" IN
            /\ \A i \in 1..Len(e.res) : e.res[i] = want
            /\ e.expect = "?" \/ e.expect = want
            /\ x.ok => /\ e.obs = x.fields                    \* every field is found at its place
                       /\ e.same                              \* encoding gives the same bytes, from whichever object
                       /\ e.eq                                \* all the objects are equal, as is one decoded from the encoding
                       /\ e.bin /\ e.json                     \* bincode is the length and the bytes, and JSON an array of them

Init == l \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED l
Spec == Init /\ [][Next]_l
Judge == Allowed(Trace[l]) \/ PrintT("REJECT " \o ToJson([reject |-> l, event |-> Trace[l], expected |-> IF Trace[l].op = "wire" THEN Object(Trace[l]) ELSE [ok |-> FALSE, fields |-> <<>>]]))
Accepted == TLCGet("stats").distinct = Len(Trace)
=============================================================================
