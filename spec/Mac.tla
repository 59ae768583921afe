-------------------------------- MODULE Mac --------------------------------
(* Algebraic MACs: whatever tags are made, re-randomised, mixed, added or  *)
(* fabricated, a tag verifies exactly for the key and message it was made  *)
(* for.  `from' says, without any algebra, which those are.                *)
EXTENDS Driver

CONSTANTS MaxSteps, MaxLen      \* constructions per behaviour; longest message

VARIABLES from    \* tag |-> <<key, message>> or <<>> if nobody with the key made it

vars == <<st, ops, hist, done, from>>

Scalars == {"a", "b", "z"}                      \* two random ones, and zero
Msgs == UNION {[1..n -> Scalars] : n \in 0..MaxLen}
Keys == {"k0", "k1", "k2", "k2x", "k3"}         \* of different lengths, and two of the same
KeyLen == [k0 |-> 0, k1 |-> 1, k2 |-> 2, k2x |-> 2, k3 |-> 3]

Setup == << OpNew("s_rand", "a"), OpNew("s_rand", "b"), OpConst("z", 0),
            OpN("sk_new", "k0", <<>>, 0), OpN("sk_new", "k1", <<>>, 1), OpN("sk_new", "k2", <<>>, 2),
            OpN("sk_new", "k2x", <<>>, 2), OpN("sk_new", "k3", <<>>, 3), OpNew("p_zero", "O") >>

Init == Begin(Setup) /\ from = [x \in {} |-> <<>>]

Steps == Len(SelectSeq(ops, LAMBDA e : e.op \in {"mac", "rerand", "rerand2", "tag_raw", "sav"}))
Tags == DOMAIN from
More == ~done /\ Steps < MaxSteps

Make(k, m) ==
    LET t == Name("t") IN
    /\ Do(Op("mac", t, <<k>> \o m))
    /\ from' = IF KeyLen[k] = Len(m) THEN (t :> <<k, m>>) @@ from ELSE from
    /\ UNCHANGED done

Rerandomize(t) ==
    LET u == Name("t") IN
    /\ Do(Op("rerand", u, <<t>>))
    /\ from' = (u :> from[t]) @@ from
    /\ UNCHANGED done

RerandomizeTwo(t, u) ==
    LET v == Name("t") IN
    /\ Do(Op("rerand2", v, <<t, u>>))
    /\ from' = (v :> from[t]) @@ from
    /\ UNCHANGED done

\* The nonce of one tag and the mac of another
Mix(t, u) ==
    LET n == Name("x") v == Name("t") IN
    /\ DoAll(<<Op("tag_P", n \o "P", <<t>>), Op("tag_Q", n \o "Q", <<u>>), Op("tag_raw", v, <<n \o "P", n \o "Q">>)>>)
    /\ from' = (v :> IF t = u THEN from[t] ELSE <<>>) @@ from
    /\ UNCHANGED done

Sum(t, u) ==
    LET n == Name("x") v == Name("t") IN
    /\ DoAll(<<Op("tag_P", n \o "P", <<t>>), Op("tag_Q", n \o "Q", <<t>>), Op("tag_P", n \o "P2", <<u>>), Op("tag_Q", n \o "Q2", <<u>>),
               Op("p_add", n \o "PP", <<n \o "P", n \o "P2">>), Op("p_add", n \o "QQ", <<n \o "Q", n \o "Q2">>),
               Op("tag_raw", v, <<n \o "PP", n \o "QQ">>)>>)
    /\ from' = (v :> IF from[t] = from[u] THEN from[t] ELSE <<>>) @@ from
    /\ UNCHANGED done

\* Tags with a component that is the identity, or swapped
Degenerate2(t, how) ==
    LET n == Name("x") v == Name("t") P == n \o "P" Q == n \o "Q" IN
    /\ DoAll(<<Op("tag_P", P, <<t>>), Op("tag_Q", Q, <<t>>),
               Op("tag_raw", v, CASE how = "OO" -> <<"O", "O">> [] how = "OQ" -> <<"O", Q>> [] how = "PO" -> <<P, "O">>
                                  [] how = "QP" -> <<Q, P>> [] how = "PP" -> <<P, P>>)>>)
    /\ from' = (v :> <<>>) @@ from
    /\ UNCHANGED done

Save(t) ==
    /\ Do(Op("sav", t, <<t>>))
    /\ UNCHANGED <<from, done>>

\* Verify every tag under every key for every message that matters.
Chks == LET S == {<<k, t, m>> \in Keys \X Tags \X Msgs : Len(m) <= KeyLen[k] + 1 /\ Len(m) + 1 >= KeyLen[k]}
            T == {<<from[t][1], t, from[t][2]>> : t \in {t \in Tags : from[t] # <<>>}}
        IN  SetToSeq(T \cup PickSome(60, S))
Finish ==
    /\ ~done /\ Tags # {}
    /\ \E c \in {Chks} : DoAll([i \in 1..Len(c) |-> Chk("macv", <<c[i][1], c[i][2]>> \o c[i][3])])
    /\ done' = TRUE
    /\ UNCHANGED from

Genuine == {t \in Tags : from[t] # <<>>}
Fits == {<<k, m>> \in Keys \X Msgs : Len(m) <= KeyLen[k] + 1 /\ Len(m) + 1 >= KeyLen[k]}

Next ==
    \/ More /\ \E x \in Pick(Fits) : Make(x[1], x[2])
    \/ More /\ \E t \in Pick(Tags) : Rerandomize(t) \/ Save(t)
    \/ More /\ \E t \in Pick(Genuine), how \in Pick({"OO", "OQ", "PO", "QP", "PP"}) : Degenerate2(t, how)
    \/ More /\ \E t, u \in Pick(Tags) : RerandomizeTwo(t, u)
    \/ More /\ \E t, u \in Pick(Genuine) : Mix(t, u) \/ Sum(t, u)
    \/ (Sim => ~More) /\ Finish

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* C06: a tag verifies exactly for what it was made for.                   *)
VerifiesExactly ==
    \A i \in 1..Len(hist) :
        LET h == hist[i] IN
        h.e.op = "macv" => h.ok = (from[h.e.a[2]] = <<h.e.a[1], SubSeq(h.e.a, 3, Len(h.e.a))>>)
MakesExactly ==
    \A i \in 1..Len(hist) :
        LET h == hist[i] IN h.e.op = "mac" => h.ok = (KeyLen[h.e.a[1]] = Len(h.e.a) - 1)
=============================================================================
