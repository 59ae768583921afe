----------------------------- MODULE ParamsTrace -----------------------------
(* Decides whether system parameters and secrets that the real code made    *)
(* from generators are what Params says.  Values are identified by numbers. *)
EXTENDS ParamsBlocks, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Trace) : Trace[i].op = "reset"}
VARIABLES l, gens, outs
vars == <<l, gens, outs>>

Set(s) == {s[i] : i \in 1..Len(s)}
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* Parameters: the basepoint, and the first suitable block
Found(e) ==
    /\ e.res = (IF e.want = 0 THEN "exhausted" ELSE "ok")
    /\ e.id = e.want
    /\ e.res = "ok" => e.g = "base" /\ e.h = "other"
    /\ e.start = e.off => (LET f == FirstGood(e.names) IN IF f > 0 THEN e.res = "ok" /\ e.which > 0 /\ e.names[e.which] = e.names[f] ELSE e.which = 0)
\* Secrets: as many as there should be, all different, the same as before for a generator in the same state, none that was
\* drawn from another generator, or before from this one
Drawn(e) ==
    LET g == gens[e.a] IN
    /\ e.res = "ok" /\ e.public
    /\ Len(e.ids) = Secrets(e.kind, e.n) /\ Cardinality(Set(e.ids)) = Len(e.ids)
    /\ \A o \in outs :
          /\ o.id = g.id /\ o.hist = g.hist /\ o.kind = e.kind /\ o.n = e.n => o.ids = e.ids
          /\ o.id[2] # g.id[2] \/ (o.id = g.id /\ Prefix(Append(o.hist, <<"draw", o.kind, o.n>>), g.hist)) => Set(o.ids) \cap Set(e.ids) = {}
\* Seven standard deviations, of a number of n things of which each is counted with probability 1/m
Likely(c, n, m) == (m * c - n) * (m * c - n) <= 49 * n * (m - 1)
Uniform(e) ==
    /\ e.distinct = e.times * Secrets(e.kind, e.n)
    /\ \A i \in 1..Len(e.bits) : \A b \in 1..252 : Likely(e.bits[i][b], e.times, 2)
    /\ \A i \in 1..Len(e.rest) : \A m \in 1..Len(e.rest[i]) : \A r \in 1..Len(e.rest[i][m]) : Likely(e.rest[i][m][r], e.times, Len(e.rest[i][m]))
\* A uniform number below 2^252 takes that many bits, and every secret has its own.
Sensitive(e) ==
    /\ Len(e.bits) = Secrets(e.kind, e.n)
    /\ e.all >= 252 * Len(e.bits)
    /\ \A i \in 1..Len(e.bits) : e.bits[i] >= 252 /\ e.own[i] > 0
\* What is sent may be made by another generator, that was given that many bits.
Dependent(e) == Len(e.bits) = Secrets(e.kind, e.n) /\ \A i \in 1..Len(e.bits) : e.bits[i] >= 252

Allowed(e) == CASE e.op \in {"gen", "fork"} -> TRUE
                [] e.op = "params" -> Found(e)
                [] e.op = "draw" -> Drawn(e)
                [] e.op = "many" -> Uniform(e)
                [] e.op = "sense" -> Sensitive(e)
                [] e.op = "depend" -> Dependent(e)

Init == l \in Starts /\ gens = <<>> /\ outs = {}
Next ==
    /\ l < Len(Trace) /\ Trace[l + 1].op # "reset"
    /\ LET e == Trace[l + 1] IN
       IF ~Allowed(e)
       THEN PrintT("REJECT " \o ToJson([reject |-> l + 1, event |-> e, expected |-> "the first suitable block; secrets drawn one by one, uniformly, from the generator"])) /\ FALSE
       ELSE /\ l' = l + 1
            /\ gens' = CASE e.op = "gen" -> (e.o :> [id |-> <<e.script, e.seed>>, hist |-> <<>>]) @@ gens
                         [] e.op = "fork" -> (e.o :> gens[e.a]) @@ gens
                         [] e.op = "params" -> [gens EXCEPT ![e.a].hist = Append(@, <<"params", "", 0>>)]
                         [] e.op = "draw" -> [gens EXCEPT ![e.a].hist = Append(@, <<"draw", e.kind, e.n>>)]
                         [] OTHER -> gens
            /\ outs' = IF e.op = "draw" THEN outs \cup {[id |-> gens[e.a].id, hist |-> gens[e.a].hist, kind |-> e.kind, n |-> e.n, ids |-> e.ids]}
                       ELSE outs
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").distinct = Len(Trace)
=============================================================================
