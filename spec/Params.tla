-------------------------------- MODULE Params --------------------------------
(* Random number generators, the search for system parameters in what they *)
(* yield, one block at a time, and the drawing of secrets from them.       *)
EXTENDS ParamsBlocks, Json

CONSTANTS Sim, Mode, MaxLen, MaxOps, Mutation
\* Mode: "hunt": parameters from scripted generators; "runs": after long runs of what is not suitable; "draw": sequences of
\* all functions on generators with seeds, and copies of generators; "single", "depend": properties of each function

VARIABLES gens,     \* name -> [script: what is left of it, seed (-1: nothing follows), hist: what has been drawn, fresh]
          hunt,     \* the search that is on: [g, o, tried], or g = ""
          out,      \* what was found or drawn: [g: the generator as it was, what, n, v]
          ops, done
vars == <<gens, hunt, out, ops, done>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
NoHunt == [g |-> "", o |-> "", tried |-> <<>>, at |-> 0]

Init == gens = <<>> /\ hunt = NoHunt /\ out = <<>> /\ ops = <<>> /\ done = FALSE
Idle == ~done /\ hunt.g = ""
Name(x) == x \o ToString(Len(ops) + 1)

Gen(script, seed) ==
    /\ Idle /\ Len(ops) < MaxOps
    /\ gens' = (Name("r") :> [script |-> script, seed |-> seed, id |-> <<script, seed>>, hist |-> <<>>, used |-> 0]) @@ gens
    /\ ops' = Append(ops, [op |-> "gen", o |-> Name("r"), script |-> script, seed |-> seed])
    /\ UNCHANGED <<hunt, out, done>>
Fork(g) ==
    /\ Idle /\ Len(ops) < MaxOps
    /\ gens' = (Name("r") :> gens[g]) @@ gens
    /\ ops' = Append(ops, [op |-> "fork", o |-> Name("r"), a |-> g])
    /\ UNCHANGED <<hunt, out, done>>

\* The search for a second generator
Start(g) ==
    /\ Idle /\ Len(ops) < MaxOps
    /\ hunt' = [g |-> g, o |-> Name("p"), tried |-> <<>>, at |-> gens[g].used]
    /\ ops' = Append(ops, [op |-> "params", o |-> Name("p"), a |-> g, names |-> gens[g].script, off |-> 32 * gens[g].used])
    /\ UNCHANGED <<gens, out, done>>
Accepted(b) == CASE "NoIdentityCheck" \in Mutation -> b \in Good \cup {"identity"}
                 [] "NoBasepointCheck" \in Mutation -> b \in Good \cup {"base"}
                 [] "Masked" \in Mutation -> b \in Good \cup {"high1", "high2"}
                 [] "GiveUp" \in Mutation -> b \in Good \/ Len(hunt.tried) >= 2
                 [] OTHER -> b \in Good
Finish(v, n) ==
    /\ out' = Append(out, [g |-> gens[hunt.g], what |-> "params", n |-> n, v |-> v, tried |-> hunt.tried])
    /\ gens' = [gens EXCEPT ![hunt.g].script = IF n = 0 THEN <<>> ELSE SubSeq(@, n + 1, Len(@)), ![hunt.g].hist = Append(@, <<"params", "", 0>>),
                            ![hunt.g].used = @ + n]
    /\ hunt' = NoHunt
    /\ UNCHANGED <<ops, done>>
Try ==
    /\ hunt.g # ""
    /\ LET g == gens[hunt.g] k == Len(hunt.tried) + 1 IN
       IF k > Len(g.script)
       THEN IF g.seed < 0 THEN Finish(<<"exhausted">>, 0)                   \* it asks for more
            ELSE Finish(<<"seeded", g.seed, g.hist>>, Len(g.script))      \* sooner or later something is suitable
       ELSE IF Accepted(g.script[k]) THEN Finish(<<"block", g.script[k]>>, k)
            ELSE hunt' = [hunt EXCEPT !.tried = Append(@, g.script[k])] /\ UNCHANGED <<gens, out, ops, done>>

\* The secrets that are drawn, by the generator, what was drawn before, and their number
Drawn(g, k, n) ==
    [i \in 1..Secrets(k, n) |-> <<g.id, g.hist, k, n,
        CASE "Twice" \in Mutation -> IF i > 1 THEN 2 ELSE 1 [] "Fixed" \in Mutation -> i [] OTHER -> i>>]
Draw(g, k, n, p) ==
    /\ Idle /\ Len(ops) < MaxOps
    /\ out' = Append(out, [g |-> gens[g], what |-> k, n |-> n, v |-> IF "Fixed" \in Mutation THEN [i \in 1..Secrets(k, n) |-> <<i>>] ELSE Drawn(gens[g], k, n)])
    /\ gens' = [gens EXCEPT ![g].hist = Append(@, <<"draw", k, n>>)]
    /\ ops' = Append(ops, [op |-> "draw", a |-> g, kind |-> k, n |-> n, p |-> p])
    /\ UNCHANGED <<hunt, done>>
Single(op, k, n, s) ==
    /\ Idle /\ Len(ops) < MaxOps
    /\ ops' = Append(ops, IF op = "many" THEN [op |-> op, kind |-> k, n |-> n, seed |-> s, times |-> 500] ELSE [op |-> op, kind |-> k, n |-> n, seed |-> s])
    /\ UNCHANGED <<gens, hunt, out, done>>
Stop == Idle /\ ops # <<>> /\ (Sim \/ ops[Len(ops)].op \notin {"gen", "fork"}) /\ (Sim => Len(ops) >= MaxOps \/ Mode = "hunt") /\ done' = TRUE /\ UNCHANGED <<gens, hunt, out, ops>>

\* (of a variable, lest it be evaluated only once)
Scripts(o) == CASE Mode = "hunt" -> IF Sim THEN {[i \in 1..RandomElement(1..MaxLen) |-> IF RandomElement(1..4) = 1 THEN RandomElement(Good) ELSE RandomElement(Trivial \cup None)]}
                                 ELSE UNION {[1..n -> Blocks] : n \in 0..MaxLen}
             [] Mode = "runs" -> {[i \in 1..(n + 1) |-> IF i > n THEN g ELSE b] : n \in {7, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 129, 255, 256, MaxLen}, b \in None \cup Trivial, g \in {"point1", "identity"}}
             [] Mode = "draw" -> IF Sim THEN {[i \in 1..RandomElement(0..3) |-> RandomElement(Trivial \cup None)]} ELSE {<<>>}
             [] OTHER -> {}
\* In "draw", a scripted generator is used for parameters first.
Next ==
    \/ Try
    \/ /\ Mode \in {"hunt", "runs"} /\ ops = <<>>
       /\ \E s \in Pick(Scripts(ops)) : Gen(s, -1)
    \/ /\ Mode \in {"hunt", "runs"} /\ ops # <<>> /\ (Sim \/ Len(ops) = 1)
       /\ \E g \in DOMAIN gens : Start(g)
    \/ /\ Mode = "draw" /\ (Sim \/ Cardinality(DOMAIN gens) < 2)
       /\ \E s \in Pick(Scripts(ops)) : \E n \in (IF Sim THEN Pick(1..4) ELSE {1, 2}) : Gen(s, n)
    \/ /\ Mode = "draw" /\ (Sim \/ Cardinality(DOMAIN gens) < 2)
       /\ \E g \in Pick(DOMAIN gens) : Fork(g)
    \/ /\ Mode = "draw"
       /\ \E g \in Pick(DOMAIN gens) : Start(g)
    \/ /\ Mode = "draw"
       /\ \E g \in Pick({g \in DOMAIN gens : gens[g].script = <<>>}) : \E k \in Pick(Kinds) :
          \E n \in (IF k \in {"key", "nonces"} THEN (IF Sim THEN Pick(0..5 \cup {17, 40}) ELSE {2}) ELSE {1}) :
          \E p \in (IF Sim THEN Pick({ops[i].o : i \in {i \in 1..Len(ops) : ops[i].op = "params"}} \cup {""}) ELSE {""}) : Draw(g, k, n, p)
    \/ /\ Mode = "single" /\ ops = <<>>
       /\ \E k \in Kinds : \E n \in (IF k \in {"key", "nonces"} THEN 1..4 ELSE {1}) : \E o \in {"many", "sense"} : \E s \in 1..MaxLen :
             ~(k = "rer" /\ o = "many") /\ Single(o, k, n, s)
    \/ /\ Mode = "depend" /\ ops = <<>>
       /\ \E k \in Kinds \cup Senders : \E n \in (IF k \in {"key", "nonces"} THEN 1..2 ELSE {1}) : \E s \in 1..MaxLen : Single("depend", k, n, s)
    \/ Stop
Spec == Init /\ [][Next]_vars

\* What is found can serve as a second generator, it is the first that can, and nothing is found where there is nothing.
IsParams(x) == x.what = "params"
Sound == \A i \in 1..Len(out) : IsParams(out[i]) /\ out[i].v[1] = "block" => out[i].v[2] \in Good
First == \A i \in 1..Len(out) : IsParams(out[i]) => (LET f == FirstGood(out[i].g.script) IN
            IF f # 0 THEN out[i].v = <<"block", out[i].g.script[f]>> ELSE out[i].v[1] # "block")
\* Secrets are the same if they are drawn by the same function from a generator in the same state; other ones are others.
State(x) == <<x.g.id, x.g.hist, x.what, x.n>>
Deterministic == \A i, j \in 1..Len(out) : State(out[i]) = State(out[j]) /\ ~IsParams(out[i]) => out[i].v = out[j].v
Distinct == \A i, j \in 1..Len(out) : ~IsParams(out[i]) /\ ~IsParams(out[j]) =>
    \A a \in 1..Len(out[i].v), b \in 1..Len(out[j].v) : out[i].v[a] = out[j].v[b] => State(out[i]) = State(out[j]) /\ a = b

Emit == done => PrintT("SCENARIO " \o ToJson([ops |-> ops]))
=============================================================================
