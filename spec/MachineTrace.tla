---------------------------- MODULE MachineTrace ----------------------------
(* Decides whether a trace recorded from the real library is a behaviour   *)
(* of Machine.  Every scenario of the trace is a behaviour of its own.     *)
EXTENDS Machine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Trace) : Trace[i].op = "reset"}

CONSTANT Explained      \* whether refusals have to say why, too

\* What errors say: type, which one it is, and its text.  Different errors of a type say different things.
Said == {<<Trace[i].of, Trace[i].why, Trace[i].text>> : i \in {j \in 1..Len(Trace) : "why" \in DOMAIN Trace[j]}}
SaysWhy(s, e) ==
    "why" \in DOMAIN e =>
        /\ e.why \in Reasons(s, e)
        /\ e.text # ""
        /\ \A x \in Said : x[1] = e.of => ((x[2] = e.why) <=> (x[3] = e.text))

VARIABLES l,        \* position in the trace
          st,       \* state of the machine
          known     \* which value is observed under which number; equal values have equal numbers, and only they

vars == <<l, st, known>>

RECURSIVE Match(_, _, _, _)
\* The observed numbers from the i-th on are consistent with what the specification says the values are.
Match(kn, obs, ids, i) ==
    IF i > Len(obs) THEN [ok |-> TRUE, kn |-> kn]
    ELSE IF obs[i] \in DOMAIN kn
         THEN IF kn[obs[i]] = ids[i] THEN Match(kn, obs, ids, i + 1) ELSE [ok |-> FALSE, kn |-> kn]
         ELSE IF ids[i] = Cardinality(DOMAIN kn) + 1
              THEN Match((obs[i] :> ids[i]) @@ kn, obs, ids, i + 1)
              ELSE [ok |-> FALSE, kn |-> kn]

\* A message some of whose bits were flipped, of which the world says which field changed, and whether it still decodes.
Flip(e) ==
    LET m == st.env[e.a[1]]
        s == PVar(IF e.fk = "P" THEN -(st.n + 2) ELSE st.n + 2)
        v == IF e.res = "ok" THEN [m EXCEPT !.f[FieldIx[m.t][e.f]] = s] ELSE [m EXCEPT !.bad = TRUE]
    IN  [st |-> Put(Use(st, 2), e.o, v), ok |-> e.res = "ok", obs |-> IF e.res = "ok" THEN Obs(v) ELSE <<>>]

Init == l \in Starts /\ st = Init0 /\ known = [x \in {} |-> 0]

Next ==
    /\ l < Len(Trace)
    /\ Trace[l + 1].op # "reset"
    /\ LET e == Trace[l + 1]
           x == IF e.op = "msg_flip" THEN Flip(e) ELSE Exec(st, e)
           res == IF x.ok THEN "ok" ELSE "err"
           m == IF e.res = res /\ Len(e.ids) = Len(x.obs) THEN Match(known, x.obs, e.ids, 1) ELSE [ok |-> FALSE, kn |-> known]
           why == ~Explained \/ e.res # "err" \/ SaysWhy(st, e)
       IN  IF m.ok /\ why
           THEN l' = l + 1 /\ st' = x.st /\ known' = m.kn
           ELSE /\ PrintT("REJECT " \o ToJson([reject |-> l + 1, event |-> e, expected |-> IF m.ok THEN Reasons(st, e) ELSE res, obs |-> Len(x.obs)]))
                /\ FALSE

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").distinct = Len(Trace)
=============================================================================
