------------------------------ MODULE Blinding ------------------------------
(* Fiat-Shamir challenges and blinding factors of the five proof systems.  *)
(*                                                                         *)
(* Proofs are made by the library and by an independent implementation of  *)
(* the documented transcript, and verified by both.  The tester knows all  *)
(* secrets, so it can compute every blinding factor r = s - c*w.  They     *)
(* have to be different and unrelated, in all proofs ever made, also when  *)
(* they were made by processes that know nothing of each other. The same   *)
(* for the proofs that are inside of the messages of the protocol.         *)
EXTENDS Driver

CONSTANTS TestKinds,  \* which proof systems
          MaxProofs,  \* proofs in a behaviour
          MaxPairs    \* how many pairs of blinding factors are compared

VARIABLES kind, how, blinds, made
vars == <<st, ops, hist, done, kind, how, blinds, made>>

PubReg(k, i) == k \o "p" \o ToString(i)
SecReg(k, i) == k \o "s" \o ToString(i)
Pubs(k) == [i \in 1..NPublics(k) |-> PubReg(k, i)]
Secs(k) == [i \in 1..NSecrets(k) |-> SecReg(k, i)]
Lhs(k) == {Equations[k][e][1] : e \in 1..Len(Equations[k])}
Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

EvalEq(k, e) ==
    LET q == Equations[k][e]
        T == Len(q[2])
        t(i) == k \o "e" \o ToString(e) \o "t" \o ToString(i)
        muls == [i \in 1..T |-> Op("p_mul", t(i), <<SecReg(k, q[2][i][1]), PubReg(k, q[2][i][2])>>)]
    IN  IF T = 1 THEN <<Op("p_mul", PubReg(k, q[1]), <<SecReg(k, q[2][1][1]), PubReg(k, q[2][1][2])>>)>>
        ELSE muls \o <<Op("p_add", PubReg(k, q[1]), <<t(1), t(2)>>)>>

\* A true statement: with random values, or degenerate ones
Statement(k, h, i) ==
    Flatten([j \in 1..NSecrets(k) |-> IF (h = "zero" /\ j = i) \/ h = "allzero" THEN <<OpConst(SecReg(k, j), 0)>>
                                      ELSE IF h = "equal" /\ j > 1 THEN <<Op("s_add", SecReg(k, j), <<SecReg(k, 1), "c0">>)>>
                                      ELSE <<OpNew("s_rand", SecReg(k, j))>>])
    \o Flatten([j \in 1..NPublics(k) |-> IF j \in Lhs(k) THEN <<>>
                                         ELSE IF (h = "identity" /\ j = i) \/ h = "allidentity" THEN <<OpNew("p_zero", PubReg(k, j))>>
                                         ELSE IF h = "allg" THEN <<OpNew("p_g", PubReg(k, j))>>
                                         ELSE <<OpNew("p_rand", PubReg(k, j))>>])
    \o Flatten([e \in 1..Len(Equations[k]) |-> EvalEq(k, e)])

Hows(k) == {<<h, 0>> : h \in {"rand", "allzero", "allidentity", "allg", "equal"}}
           \cup {<<"zero", i>> : i \in 1..NSecrets(k)} \cup {<<"identity", i>> : i \in (1..NPublics(k)) \ Lhs(k)}

Init == \E k \in TestKinds : \E x \in Hows(k) :
            Begin(<<OpConst("c0", 0), OpConst("c1", 1)>> \o Statement(k, x[1], x[2])) /\ kind = k /\ how = x /\ blinds = <<>> /\ made = 0

Contexts == {"ctx", "", "AEONFLUX SHOW"}
Extract(pf, k) ==
    Flatten([i \in 1..NSecrets(k) |-> LET b == pf \o "b" \o ToString(i) IN
        <<OpN("pf_get", b \o "s", <<pf>>, i), OpN("pf_get", b \o "c", <<pf>>, 0), Op("s_mul", b \o "w", <<b \o "c", SecReg(k, i)>>),
          Op("s_sub", b, <<b \o "s", b \o "w">>)>>])
Both(pf, k, ctx) == <<ChkPf("pfvref", pf, k, ctx, Pubs(k)), ChkPf("pfv", pf, k, ctx, Pubs(k))>>

Make ==
    /\ ~done /\ made < MaxProofs
    /\ \E op \in Pick({"pf", "pfx", "pfref"}), ctx \in Pick(Contexts) :
         LET pf == Name("f") IN
         /\ DoAll(<<OpPf(op, pf, kind, ctx, Pubs(kind), Secs(kind))>> \o Both(pf, kind, ctx) \o (IF op # "pfref" THEN Extract(pf, kind) ELSE <<>>))
         /\ blinds' = IF op # "pfref" THEN blinds \o [i \in 1..NSecrets(kind) |-> pf \o "b" \o ToString(i)] ELSE blinds
    /\ made' = made + 1
    /\ UNCHANGED <<done, kind, how>>

Compare(a, b) == LET d == a \o "-" \o b s == a \o "+" \o b IN
    <<Op("s_sub", d, <<a, b>>), Op("s_add", s, <<a, b>>), ChkN("s_small", <<d>>, 192), ChkN("s_small", <<s>>, 192)>>
Finish ==
    /\ ~done /\ (Sim => made = MaxProofs) /\ made > 0
    /\ \E ps \in {SetToSeq(PickSome(MaxPairs, {x \in (1..Len(blinds)) \X (1..Len(blinds)) : x[1] < x[2]}))} :
          DoAll(FoldLeft(LAMBDA a, x : a \o Compare(blinds[x[1]], blinds[x[2]]), <<>>, ps)
                \o [i \in 1..Len(blinds) |-> ChkN("s_small", <<blinds[i]>>, 192)])
    /\ done' = TRUE /\ UNCHANGED <<kind, how, blinds, made>>

Next == Make \/ Finish
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* C08
Val(r) == st.env[r].v
Interoperable == \A i \in 1..Len(hist) : hist[i].e.op \in {"pfv", "pfvref"} => hist[i].ok
Distinct == \A i, j \in 1..Len(blinds) : i # j => Val(blinds[i]) # Val(blinds[j])
Unrelated == \A i \in 1..Len(hist) : hist[i].e.op = "s_small" => ~hist[i].ok
\* The challenge depends on all that it ought to depend on: it is a different one for every different question.
Binding == \A x, y \in DOMAIN st.ro : x # y => st.ro[x] # st.ro[y]
=============================================================================
