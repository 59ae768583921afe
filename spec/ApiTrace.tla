------------------------------ MODULE ApiTrace ------------------------------
(* Decides whether a sequence of calls of the real API did what Api says.    *)
(* The world says of every call whether the library itself, given the same   *)
(* bytes, succeeds, and whether the bytes are the same, as far as they are   *)
(* the same whenever the library is asked again; and it says which content   *)
(* (by number) every result that was retained has after the call.            *)
EXTENDS Api, Json, IOUtils

CONSTANT Kind
Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Trace) : Trace[i].op = "reset"}
VARIABLES l, env, ids
vars == <<l, env, ids>>

Num(x) == Plain("number", <<x>>)
Seed(x) == Plain("seed", <<x>>)
Val(x) == IF x \in Numbers THEN Num(x) ELSE IF x \in Seeds THEN Seed(x) ELSE IF x \in DOMAIN env THEN env[x] ELSE Junk("none", x)
Fatal(m, k) == m \in {"null", "cut", "ext", "ext8", "ext16", "huge", "half", "text", "nested", "float", "nc"} \/ (m = "zero" /\ (Kind = "c" \/ k # "number"))

Expected(e) ==
    LET sg == Signature[e.f]
        a == [i \in 1..Len(sg) |-> IF e.m[i] \notin {"", "own"} THEN Junk(sg[i], l) ELSE Val(e.a[i])]
        \* what was not yielded, as the call that should have failed, is not an argument: nothing is passed instead
        none == \E i \in 1..Len(sg) : sg[i] \notin {"seed", "number"} /\ e.a[i] \notin DOMAIN env
        bad == none \/ \E i \in 1..Len(sg) : Fatal(e.m[i], sg[i])
    IN  [r |-> IF bad THEN "err" ELSE Succeeds(e.f, a), a |-> a]

\* Equal contents have equal numbers, and only they
Consistent(en, is, x) == \A y \in DOMAIN en : y # x => ((is[y] = is[x]) = (Content(en[y]) = Content(en[x]))) \/ IsJunk(en[x]) \/ IsJunk(en[y])

Init == l \in Starts /\ env = <<>> /\ ids = <<>>
Verdict(e) ==
    LET x == Expected(e) want == IF x.r = "?" THEN e.lib ELSE x.r
        keep == e.res = "ok" /\ Result[e.f] # "yes"
        en == IF keep THEN (e.o :> (IF x.r = "ok" THEN Holds(e.f, x.a, l) ELSE Junk(Result[e.f], l))) @@ env ELSE env
        is == IF keep THEN (e.o :> e.id) @@ ids ELSE ids
    IN  [ok |-> /\ e.lib \in {"ok", "err"} /\ e.lib = want
                /\ e.res = want
                /\ e.inputs /\ e.same
                \* (objects for another number of attributes, which an accidental keypair can have, are longer)
                /\ keep => (e.len = Lengths[Result[e.f]] \/ IsJunk(en[e.o])) /\ Consistent(en, is, e.o)
                /\ Len(e.heap) = Cardinality(DOMAIN en)
                /\ \A i \in 1..Len(e.heap) : e.heap[i].r \in DOMAIN is /\ is[e.heap[i].r] = e.heap[i].id /\ e.heap[i].live,
         want |-> want, en |-> en, is |-> is]
Header(e) == \A i \in 1..Len(e.lens) : e.lens[i].len = (IF e.lens[i].k = "seed" THEN 32 ELSE Lengths[e.lens[i].k])
Next ==
    /\ l < Len(Trace)
    /\ Trace[l + 1].op # "reset"
    /\ LET e == Trace[l + 1] IN
       IF e.op = "past"  \* what was returned before, in all the history of the process
       THEN IF e.changed = <<>> THEN l' = l + 1 /\ UNCHANGED <<env, ids>>
            ELSE PrintT("REJECT " \o ToJson([reject |-> l + 1, event |-> e, expected |-> "all that was ever returned, as it was"])) /\ FALSE
       ELSE IF e.op = "lengths"
       THEN IF Header(e) THEN l' = l + 1 /\ UNCHANGED <<env, ids>>
            ELSE PrintT("REJECT " \o ToJson([reject |-> l + 1, event |-> e, expected |-> Lengths])) /\ FALSE
       ELSE LET v == Verdict(e) IN
            IF v.ok THEN l' = l + 1 /\ env' = v.en /\ ids' = v.is
            ELSE PrintT("REJECT " \o ToJson([reject |-> l + 1, event |-> e, expected |-> v.want])) /\ FALSE
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").distinct = Len(Trace)
=============================================================================
