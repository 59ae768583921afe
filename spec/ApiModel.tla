------------------------------ MODULE ApiModel ------------------------------
(* Sequences of calls of an API, whose results are all retained.             *)
EXTENDS Api, Json, Randomization, SequencesExt

CONSTANTS Sim, Kind, MaxCalls, Faulty, World, Mutation

VARIABLES env,    \* what the retained results hold
          calls,  \* [f, a, m, o]: function, arguments, how they are spoilt, and where the result is put
          left, done
vars == <<env, calls, left, done>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

Num(x) == Plain("number", <<x>>)
Seed(x) == Plain("seed", <<x>>)
Val(en, x) == IF x \in Numbers THEN Num(x) ELSE IF x \in Seeds THEN Seed(x) ELSE en[x]

\* Keys for any number of attributes are decoded: what is appended is left to the library.
OfAnyLength == {"issuer", "ipar", "keypair"}
\* Ways to spoil an argument: appending one byte, 2^8, 2^16 or 2^32 of them, among others
Faults(k) ==
    IF Kind = "c"
    THEN CASE k = "seed" -> {"null"} 
           [] k = "number" -> {"null", "zero", "ext8", "ext16", "huge"}
           [] OTHER -> {"null", "zero", "cut", "ext", "flip", "nc", "half", "other"} \cup (IF k \in OfAnyLength THEN {} ELSE {"ext8", "ext16", "huge"})
    ELSE CASE k = "seed" -> {"cut", "ext", "ext8", "ext16", "zero"}
           [] k = "number" -> {"zero", "ext8", "ext16"}
           [] OTHER -> {"null", "zero", "cut", "ext", "flip", "nc", "half", "text", "nested", "float", "other"} \cup (IF k \in OfAnyLength THEN {} ELSE {"ext8", "ext16"})
\* These are refused always: the others are left to the library.
Fatal(m) == m \in {"null", "cut", "ext", "ext8", "ext16", "huge", "half", "text", "nested", "float", "nc"}

Perform(en, c, n) ==
    LET sg == Signature[c.f]
        a == [i \in 1..Len(sg) |-> IF c.m[i] \notin {"", "own"} THEN Junk(sg[i], n) ELSE Val(en, c.a[i])]
        bad == \E i \in 1..Len(sg) : Fatal(c.m[i]) \/ (c.m[i] = "zero" /\ (Kind = "c" \/ sg[i] # "number"))
        r == IF bad THEN "err" ELSE Succeeds(c.f, a)
    IN  [r |-> r,
         env |-> IF r = "err" \/ Result[c.f] = "yes" THEN en
                 ELSE (c.o :> (IF r = "ok" THEN Holds(c.f, a, n) ELSE Junk(Result[c.f], n)))
                      @@ (IF "Overwrite" \in Mutation /\ c.f = "user_show" THEN [x \in DOMAIN en |-> IF x = c.a[1] THEN Junk("user", n) ELSE en[x]] ELSE en)]

Call(f, a, o) == [f |-> f, a |-> a, m |-> [i \in 1..Len(a) |-> ""], o |-> o]
Preamble == IF World = "empty" THEN <<>> ELSE <<
    Call("system_parameters_create", <<"s1">>, "p1"),
    Call("system_parameters_create", <<"s2">>, "p2"),
    Call("issuer_create", <<"p1", "s1">>, "k1"),
    Call("issuer_create", <<"p1", "s2">>, "k2"),
    Call("issuer_create", <<"p2", "s1">>, "k3"),
    Call("issuer_new", <<"p1", "k1">>, "i1"),
    Call("issuer_new", <<"p1", "k2">>, "i2"),
    Call("issuer_new", <<"p2", "k3">>, "i3"),
    Call("issuer_new", <<"p2", "k1">>, "i4"),
    Call("issuer_get_issuer_parameters", <<"i1">>, "x1"),
    Call("issuer_get_issuer_parameters", <<"i2">>, "x2"),
    Call("issuer_get_issuer_parameters", <<"i3">>, "x3"),
    Call("issuer_issue", <<"i1", "n1", "s3">>, "c11"),
    Call("issuer_issue", <<"i1", "n2", "s3">>, "c12"),
    Call("issuer_issue", <<"i2", "n1", "s3">>, "c21"),
    Call("issuer_issue", <<"i3", "n1", "s3">>, "c31"),
    Call("issuer_issue", <<"i4", "n1", "s3">>, "c41"),
    Call("roster_entry_commitment_create", <<"n1", "p1", "s4">>, "e1"),
    Call("roster_entry_commitment_create", <<"n2", "p1", "s4">>, "e2"),
    Call("roster_entry_commitment_create", <<"n1", "p2", "s4">>, "e3"),
    Call("user_obtain_finish", <<"n1", "p1", "x1", "c11">>, "u1"),
    Call("user_obtain_finish", <<"n1", "p1", "x2", "c21">>, "u2"),
    Call("user_obtain_finish", <<"n1", "p2", "x3", "c31">>, "u3"),
    Call("user_show", <<"u1", "e1", "s3">>, "v1"),
    Call("user_show", <<"u1", "e2", "s3">>, "v2"),
    Call("user_show", <<"u2", "e1", "s3">>, "v3"),
    Call("user_show", <<"u3", "e3", "s3">>, "v4"),
    Call("issuer_verify", <<"i1", "v1">>, "w1"),
    Call("issuer_verify", <<"i1", "v2">>, "w2"),
    Call("issuer_verify", <<"i2", "v3">>, "w3")>>

Init ==
    /\ env = FoldLeft(LAMBDA en, i : Perform(en, Preamble[i], i).env, <<>>, [i \in 1..Len(Preamble) |-> i])
    /\ calls = Preamble
    /\ left = MaxCalls
    /\ done = FALSE

Regs(k) == {x \in DOMAIN env : env[x].k = k}
ArgsOf(k) == CASE k = "seed" -> (IF World = "empty" \/ Sim THEN Seeds ELSE {"s1"})
               [] k = "number" -> (IF Sim THEN Numbers ELSE {"n1", "n2", "long"})
               [] OTHER -> Regs(k)
NoFault(sg) == [i \in 1..Len(sg) |-> ""]
\* "other": another retained result in place of the argument, whatever it holds
Args(sg) == {s \in [1..Len(sg) -> UNION {ArgsOf(sg[i]) : i \in 1..Len(sg)}] : \A i \in 1..Len(sg) : s[i] \in ArgsOf(sg[i])}
RandomArgs(sg) == {[i \in 1..Len(sg) |-> RandomElement(ArgsOf(sg[i]))]}
Ready == {f \in Functions : \A i \in 1..Len(Signature[f]) : ArgsOf(Signature[f][i]) # {}}

Make(c) ==
    LET x == Perform(env, c, Len(calls) + 1) IN
    /\ env' = x.env
    /\ calls' = Append(calls, c)
    /\ left' = left - 1 /\ UNCHANGED done

Proper ==
    /\ ~done /\ left > 0
    /\ \E f \in Pick(Ready) :
       \E a \in IF Sim THEN RandomArgs(Signature[f]) ELSE Args(Signature[f]) :
       \E own \in IF Sim THEN {RandomElement({"", "own"})} ELSE {""} :
          Make([f |-> f, a |-> a, m |-> [i \in 1..Len(a) |-> own], o |-> "r" \o ToString(Len(calls) + 1)])
\* One more step of the protocol, so that long sequences get anywhere
Deeper ==
    /\ ~done /\ left > 0 /\ Sim
    /\ \E f \in {x \in Ready : Regs(Result[x]) = {}} : \E a \in RandomArgs(Signature[f]) : Make(Call(f, a, "r" \o ToString(Len(calls) + 1)))
First(S) == CHOOSE x \in S : \A y \in S : Len(y) > Len(x) \/ (Len(y) = Len(x))
Spoilt ==
    /\ ~done /\ left > 0 /\ Faulty
    /\ \E f \in Pick(Ready) : LET sg == Signature[f] IN
       \E i \in Pick(1..Len(sg)) :
       \E m \in Pick(Faults(sg[i])) :
       \E base \in IF Sim THEN RandomArgs(sg) ELSE {[j \in 1..Len(sg) |-> CHOOSE x \in ArgsOf(sg[j]) : TRUE]} :
       \E x \in IF m = "other" THEN Pick(DOMAIN env \ ArgsOf(sg[i])) ELSE {base[i]} :
          Make([f |-> f, a |-> [base EXCEPT ![i] = x], m |-> [NoFault(sg) EXCEPT ![i] = m], o |-> "r" \o ToString(Len(calls) + 1)])
Finish == ~done /\ (Sim => left = 0) /\ done' = TRUE /\ UNCHANGED <<env, calls, left>>
Next == Proper \/ Deeper \/ Spoilt \/ Finish
Spec == Init /\ [][Next]_vars

\* C15, C19
\* Results are never changed by later calls.
Retained == [][\A x \in DOMAIN env : x \in DOMAIN env' /\ env'[x] = env[x]]_vars
\* A whole honest run goes through; users hold credentials for their own number from the issuer they trust.
Sound(t) == IsJunk(t) \/
    CASE t.k = "user" -> t.a[4].a[2] = t.a[1] /\ t.a[4].a[1].a[1] = t.a[2] /\ t.a[4].a[1].a[2] = t.a[3].a[1]
      [] t.k = "verified" -> LET u == t.a[1].a[1] IN IsJunk(u) \/ u.a[4].a[1].a[2].a[1] = u.a[2]
      [] OTHER -> TRUE
AllSound == \A x \in DOMAIN env : Sound(env[x])
HonestRun == World = "full" => {"w1", "w2", "w3", "u3", "v4"} \subseteq DOMAIN env
                               /\ Succeeds("issuer_verify_roster_membership", <<env["i1"], env["w1"]>>) = "ok"
                               /\ Succeeds("issuer_verify_roster_membership", <<env["i1"], env["w2"]>>) = "err"
Documented == \A x \in DOMAIN env : env[x].k \in DOMAIN Lengths

Emit == done /\ Len(calls) > Len(Preamble) => PrintT("SCENARIO " \o ToJson([ops |-> [i \in 1..Len(calls) |-> [op |-> "call", f |-> calls[i].f, a |-> calls[i].a, m |-> calls[i].m, o |-> calls[i].o]]]))
=============================================================================
