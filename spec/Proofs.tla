------------------------------- MODULE Proofs -------------------------------
(* The five proof systems on their own: proofs of true and of false        *)
(* statements, verified as they are, or after changes to the publics, to   *)
(* the context, to the challenge or to responses.                          *)
EXTENDS Driver

CONSTANTS TestKinds,      \* which proof systems
          MaxChanges,     \* how many changes between creation and verification
          Rich            \* TRUE: replace values by any other and start from special values too; FALSE: random values only

VARIABLES kind, phase,
          cur             \* what will be verified: [ctx, pubs (registers), pf (register)]
vars == <<st, ops, hist, done, kind, phase, cur>>

PubReg(i) == "p" \o ToString(i)
SecReg(i) == "s" \o ToString(i)
Pubs(k) == [i \in 1..NPublics(k) |-> PubReg(i)]
Secs(k) == [i \in 1..NSecrets(k) |-> SecReg(i)]

Lhs(k) == {Equations[k][e][1] : e \in 1..Len(Equations[k])}

\* Operations that compute the left-hand side of an equation from the registers of secrets and publics.
EvalEq(k, e) ==
    LET q == Equations[k][e]
        T == Len(q[2])
        t(i) == "e" \o ToString(e) \o "t" \o ToString(i)
        muls == [i \in 1..T |-> Op("p_mul", t(i), <<SecReg(q[2][i][1]), PubReg(q[2][i][2])>>)]
    IN  IF T = 1 THEN <<Op("p_mul", PubReg(q[1]), <<SecReg(q[2][1][1]), PubReg(q[2][1][2])>>)>>
        ELSE muls \o <<Op("p_add", PubReg(q[1]), <<t(1), t(2)>>)>>       \* no equation has more than two terms

OtherPoints == IF Rich THEN {"pr", "pz", "pg"} \cup {PubReg(j) : j \in 1..NPublics(kind)} ELSE {"pr"}
OtherScalars == IF Rich THEN {"sr", "sz", "one"} \cup {SecReg(j) : j \in 1..NSecrets(kind)} ELSE {"sr"}

Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* True statements.  How the free values are drawn: "rand", some secret zero, or some public the identity.
Setup(k, how, i) ==
    Flatten([j \in 1..NSecrets(k) |-> IF how = "zero" /\ j = i THEN <<OpConst(SecReg(j), 0)>>
                                      ELSE IF how = "one" /\ j = i THEN <<OpConst(SecReg(j), 1)>>
                                      ELSE <<OpNew("s_rand", SecReg(j))>>])
    \o Flatten([j \in 1..NPublics(k) |-> IF j \in Lhs(k) THEN <<>>
                                         ELSE IF how = "identity" /\ j = i THEN <<OpNew("p_zero", PubReg(j))>>
                                         ELSE IF how = "g" /\ j = i THEN <<OpNew("p_g", PubReg(j))>>
                                         ELSE <<OpNew("p_rand", PubReg(j))>>])
    \o Flatten([e \in 1..Len(Equations[k]) |-> EvalEq(k, e)])
    \o <<OpNew("s_rand", "sr"), OpConst("sz", 0), OpConst("one", 1), OpNew("p_rand", "pr"), OpNew("p_zero", "pz"), OpNew("p_g", "pg")>>

Hows(k) == {<<"rand", 0>>} \cup {<<h, i>> : h \in {"zero", "one"}, i \in 1..NSecrets(k)}
           \cup {<<h, i>> : h \in {"identity", "g"}, i \in (1..NPublics(k)) \ Lhs(k)}

Init == \E k \in TestKinds : \E x \in Hows(k) :
            (Rich \/ x[1] \in {"rand", "identity"}) /\
            Begin(Setup(k, x[1], x[2])) /\ kind = k /\ phase = x[1] /\ cur = <<>>

\* By definition, without any proof: do the registers satisfy every equation?
Val(r) == st.env[r].v
Satisfied(k, secs, pubs) ==
    \A e \in 1..Len(Equations[k]) :
        LET q == Equations[k][e] IN
        Val(pubs[q[1]]) = PSum([t \in 1..Len(q[2]) |-> PMul(Val(secs[q[2][t][1]]), Val(pubs[q[2][t][2]]))])

\* What was verified before must not matter to what is verified later: often, the proof is verified also before it is changed.
Create(op, secs, pubs, ctx, dev) ==
    /\ \E before \in (IF Sim THEN Pick({"pfv", "pfvref", "none"}) ELSE {"pfv"}) :
         DoAll(<<OpPf(op, "pf", kind, ctx, pubs, secs)>> \o (IF before = "none" THEN <<>> ELSE <<ChkPf(before, "pf", kind, ctx, pubs)>>))
    /\ cur' = [ctx |-> ctx, pubs |-> pubs, pf |-> "pf", truth |-> Satisfied(kind, secs, pubs), changes |-> 0, dev |-> dev,
               made |-> [i \in 1..Len(pubs) |-> Val(pubs[i])]]
    /\ UNCHANGED <<kind, phase, done>>

Creates ==
    /\ cur = <<>>
    /\ LET P == Pubs(kind) S == Secs(kind) IN
       \/ \E op \in Pick({"pf", "pfref"}) : Create(op, S, P, "ctx", "none")
       \/ /\ phase = "rand"
          /\ \/ \E i \in Pick(1..NSecrets(kind)), r \in Pick(OtherScalars) :
                    r # SecReg(i) /\ Create("pf", [S EXCEPT ![i] = r], P, "ctx", "secret")
             \/ \E i \in Pick(1..NPublics(kind)), r \in Pick(OtherPoints) :
                    r # PubReg(i) /\ Create("pf", S, [P EXCEPT ![i] = r], "ctx", "public")

\* Changes between creation and verification
Change ==
    /\ cur # <<>> /\ ~done /\ cur.changes < MaxChanges
    /\ Rich \/ (phase = "rand" /\ cur.dev = "none")
    /\ \/ \E i \in Pick(1..NPublics(kind)), r \in Pick(OtherPoints) :
             /\ cur' = [cur EXCEPT !.pubs[i] = r, !.changes = @ + 1]
             /\ UNCHANGED dvars
       \/ \E x \in {"ctx2", "", "AEONFLUX SHOW", "ctx"} \ {cur.ctx} :
             /\ cur' = [cur EXCEPT !.ctx = x, !.changes = @ + 1]
             /\ UNCHANGED dvars
       \/ \E i \in Pick(0..NSecrets(kind)), r \in Pick(OtherScalars) :
             /\ Do(OpN("pf_set", Name("pf"), <<cur.pf, r>>, i))
             /\ cur' = [cur EXCEPT !.pf = Name("pf"), !.changes = @ + 1]
             /\ UNCHANGED done
       \/ \E i, j \in Pick(0..NSecrets(kind)) :          \* one response (or the challenge) in place of another
             /\ i # j
             /\ LET v == Name("v") IN DoAll(<<OpN("pf_get", v, <<cur.pf>>, j), OpN("pf_set", Name("pf"), <<cur.pf, v>>, i)>>)
             /\ cur' = [cur EXCEPT !.pf = Name("pf"), !.changes = @ + 1]
             /\ UNCHANGED done
       \/ \E i \in Pick(0..NSecrets(kind)), how \in Pick({"s_neg", "s_add"}) :    \* negated, or one more
             /\ LET v == Name("v") w == Name("w") IN
                DoAll(<<OpN("pf_get", v, <<cur.pf>>, i), Op(how, w, IF how = "s_neg" THEN <<v>> ELSE <<v, "one">>),
                        OpN("pf_set", Name("pf"), <<cur.pf, w>>, i)>>)
             /\ cur' = [cur EXCEPT !.pf = Name("pf"), !.changes = @ + 1]
             /\ UNCHANGED done
       \/ \E r \in Pick({"sr", "sz", "one"}) :          \* everything scaled, also the challenge
             /\ LET n == NSecrets(kind) + 1
                    v(i) == Name("v") \o "x" \o ToString(i)
                    f(i) == IF i = 0 THEN cur.pf ELSE Name("pf") \o "x" \o ToString(i) IN
                DoAll(Flatten([i \in 1..n |-> <<OpN("pf_get", v(i), <<f(i - 1)>>, i - 1), Op("s_mul", v(i), <<v(i), r>>),
                                                OpN("pf_set", f(i), <<f(i - 1), v(i)>>, i - 1)>>]))
             /\ cur' = [cur EXCEPT !.pf = Name("pf") \o "x" \o ToString(NSecrets(kind) + 1), !.changes = @ + 1]
             /\ UNCHANGED done
    /\ UNCHANGED <<kind, phase>>

Finish ==
    /\ cur # <<>> /\ ~done
    /\ (Sim => cur.changes = MaxChanges)
    /\ DoAll(<<ChkPf("pfv", cur.pf, kind, cur.ctx, cur.pubs), ChkPf("pfvref", cur.pf, kind, cur.ctx, cur.pubs)>>)
    /\ done' = TRUE
    /\ UNCHANGED <<kind, phase, cur>>

Next == Creates \/ Change \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Final == hist[Len(hist)]
Orig == st.env["pf"].x
Now == st.env[cur.pf].x
\* The publics that are identities now make some responses irrelevant.
Relevant(i) == \E e \in 1..Len(Equations[kind]) : \E t \in 1..Len(Equations[kind][e][2]) :
                   LET x == Equations[kind][e][2][t] IN x[1] = i /\ Val(cur.pubs[x[2]]) # PZero

(* C07, completeness: a proof of a true statement verifies if nothing of   *)
(* consequence changed.                                                    *)
Unchanged ==
    /\ cur.ctx = "ctx"
    /\ \A i \in 1..NPublics(kind) : Val(cur.pubs[i]) = cur.made[i]
    /\ Now[1] = Orig[1]
    /\ \A i \in 1..NSecrets(kind) : Relevant(i) => Now[i + 1] = Orig[i + 1]
Complete == (done /\ cur.truth /\ Unchanged) => Final.ok

(* C07, soundness: it verifies only then, unless responses that occur      *)
(* together were changed together, which needs one of the generators to be *)
(* a known multiple of another (as for x0 and m1x1, both of P alone).      *)
Together == cur.changes > 1 \/ phase \in {"g", "identity"} \/ cur.dev = "public"
Sound == (done /\ Final.ok /\ ~Together) => (cur.truth /\ Unchanged)
SoundAlways == (done /\ Final.ok) => (/\ cur.ctx = "ctx" /\ Now[1] = Orig[1]
                                     /\ \A i \in 1..NPublics(kind) : Val(cur.pubs[i]) = cur.made[i])
SameVerdict == done => Final.ok = hist[Len(hist) - 1].ok
=============================================================================
