-------------------------------- MODULE Forge --------------------------------
(* An adversary who computes what he presents: linear combinations of the  *)
(* points he has seen, with correctly computed proofs about them.          *)
(*                                                                         *)
(* He knows credentials for two numbers, the public parameters, issuances, *)
(* presentations and roster entries.  `good' says, from the coefficients   *)
(* that he chose alone, whether what he presents is a credential (or       *)
(* entry) after all: one for a number that he has credentials for, made    *)
(* of the credentials for this number alone.                               *)
EXTENDS Driver

CONSTANTS Goals, Coeffs, MaxNonZero

VARIABLES goal, good, vec     \* vec: the coefficients
vars == <<st, ops, hist, done, goal, good, vec>>

D1 == <<1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4>>
D2 == <<1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 5>>

Get(o, m, f) == OpF("msg_get", o, <<m>>, f)
Setup == <<
    OpNew("prm_new", "p1"), Op("prm_g", "g", <<"p1">>), Op("prm_h", "h", <<"p1">>), Op("iss_new", "i1", <<"p1">>),
    Op("iss_new", "i2", <<"p1">>), Op("iss_pk", "q1", <<"i1">>), OpN("pk_x", "X", <<"q1">>, 0),
    Op("iss_pk", "q2", <<"i2">>), OpN("pk_x", "X2", <<"q2">>, 0),
    OpNum("n1", D1), OpNum("n2", D2), Op("phone", "f1", <<"n1">>), Op("phone", "f2", <<"n2">>),
    Op("usr_new", "u1", <<"p1", "q1", "n1">>), Op("usr_new", "u2", <<"p1", "q1", "n2">>), Op("usr_new", "u0", <<"p1", "q1", "n1">>),
    Op("ros", "e1", <<"n1", "p1">>), Op("ros", "e2", <<"n2", "p1">>),
    Op("issue", "m1", <<"i1", "n1">>), Op("issue", "m2", <<"i1", "n1">>), Op("issue", "m3", <<"i1", "n2">>), Op("issue", "m4", <<"i2", "n1">>),
    Chk("fin", <<"u1", "m1">>), Chk("fin", <<"u2", "m3">>),
    Op("show", "s1", <<"u1", "e1">>), Op("show", "s2", <<"u2", "e2">>), Op("ver", "v1", <<"i1", "s1">>), Op("ver", "v2", <<"i1", "s2">>),
    Get("P1", "m1", "P"), Get("Q1", "m1", "Q"), Get("P2", "m2", "P"), Get("Q2", "m2", "Q"), Get("P3", "m3", "P"), Get("Q3", "m3", "Q"),
    Get("P4", "m4", "P"), Get("Q4", "m4", "Q"), Get("K1", "m1", "Cx0"), Get("SP", "s1", "P"), Get("SC", "s1", "CQ"), Get("SM", "s1", "Cm"),
    Op("ros_C", "C1", <<"e1">>), Op("ros_o", "o1", <<"e1">>), Op("ros_C", "C2", <<"e2">>), Op("ros_o", "o2", <<"e2">>),
    OpNew("s_rand", "r1"), OpNew("s_rand", "r2"), OpNew("s_rand", "r3"), OpNew("s_rand", "r4"), OpConst("c0", 0), OpConst("c1", 1), OpConst("c2", 2),
    OpConst("c-1", -1), OpNew("p_zero", "O") >>

CReg == [c \in -1..3 |-> CASE c = -1 -> "c-1" [] c = 0 -> "c0" [] c = 1 -> "c1" [] c = 2 -> "c2" [] c = 3 -> "r4"]   \* 3: a random factor

Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
\* o := sum of coefficient * point
Combine(o, cs, ps) ==
    <<OpNew("p_zero", o)>>
    \o Flatten([i \in 1..Len(ps) |-> IF cs[i] = 0 THEN <<>>
                    ELSE <<Op("p_mul", o \o "t", <<CReg[cs[i]], ps[i]>>), Op("p_add", o, <<o, o \o "t">>)>>])

Bases  == <<"P1", "P2", "P3", "P4", "g", "h", "X">>
MBases == <<"Q1", "Q2", "Q3", "Q4", "O", "O", "O">>       \* the MACs that go with them, as far as he has them
Vecs(n) == {v \in [1..n -> Coeffs] : Cardinality({i \in 1..n : v[i] # 0}) <= MaxNonZero}
Support(v) == {i \in DOMAIN v : v[i] # 0}

\* A proof and the message it is in: fields CQ, P, Cm with the randomisers in registers z and zq.
Present(m, z, zq, X, ctx, op) == <<
    Op("p_mul", "a1", <<zq, "h">>), Op("p_add", "CQ", <<"FQ", "a1">>),
    Op("p_mul", "a2", <<m, "FP">>), Op("p_mul", "a3", <<z, "h">>), Op("p_add", "Cm", <<"a2", "a3">>),
    Op("p_mul", "a4", <<z, X>>), Op("p_sub", "V", <<"a4", "a1">>), Op("s_neg", "mzq", <<zq>>),
    OpPf(op, "fp", "valid_credential", ctx, <<"g", "h", X, "FP", "V", "Cm">>, <<m, z, "mzq">>),
    OpN("pf_get", "fc", <<"fp">>, 0), OpN("pf_get", "fs1", <<"fp">>, 1), OpN("pf_get", "fs2", <<"fp">>, 2), OpN("pf_get", "fs3", <<"fp">>, 3) >>
RosterBy(op, m, z, E, o, ctx) == <<
    OpPf(op, "fr", "committed_values_equal", ctx, <<"g", "h", "FP", "Cm", E>>, <<m, z, o>>),
    OpN("pf_get", "rc", <<"fr">>, 0), OpN("pf_get", "rs1", <<"fr">>, 1), OpN("pf_get", "rs2", <<"fr">>, 2), OpN("pf_get", "rs3", <<"fr">>, 3) >>
Roster(m, z, E, o, ctx) == RosterBy("pfref", m, z, E, o, ctx)
Assemble(E) == << OpF("msg_new", "F", <<E, "CQ", "FP", "Cm", "fc", "fs1", "fs2", "fs3", "rc", "rs1", "rs2", "rs3">>, "pres"),
                  OpF("msg_new", "AF", <<"CQ", "FP", "Cm", "fc", "fs1", "fs2", "fs3">>, "apres") >>
CheckIt == << Op("ver", "w1", <<"i1", "F">>), OpN("aver", "w2", <<"i1", "AF">>, 1), Op("unver", "FV", <<"F">>), Op("vros", "w3", <<"i1", "FV">>) >>

Init == Begin(Setup) /\ goal = "" /\ good = <<>> /\ vec = <<>>

(* A presentation of P = sum v_i Base_i with MAC sum w_i MBase_i, for      *)
(* attribute m.                                                            *)
CredGood(v, w, m) ==
    LET S == Support(v) IN
    /\ S # {}
    /\ Support(w) \cap 1..4 = S /\ \A i \in S : i <= 4 /\ w[i] = v[i]
    /\ \/ m = "f1" /\ S \subseteq {1, 2}
       \/ m = "f2" /\ S = {3}
Credential ==
    \E v \in {vec}, m \in Pick({"f1", "f2", "c0", "r3", "fs"}), zs \in Pick({<<"r1", "r2">>, <<"c0", "c0">>}), X \in Pick({"X", "X2"}),
       ctx \in Pick({"AEONFLUX SHOW", "AEONFLUX ISSUANCE", ""}), op \in Pick({"pf", "pfref"}) :
    \E w \in (IF Sim THEN Pick({v, v, v, [i \in 1..7 |-> 0]} \cup {[v EXCEPT ![i] = 1] : i \in 1..4}) ELSE {v}) :
       /\ Sim \/ ((m \in {"f1", "f2"} \/ zs[1] = "r1") /\ ((X = "X") \/ (ctx = "AEONFLUX SHOW" /\ m = "f1" /\ zs[1] = "r1")) /\ op = "pfref" /\ (ctx = "AEONFLUX SHOW" \/ (m = "f1" /\ zs[1] = "r1")))
               \/ (op = "pf" /\ X = "X" /\ ctx = "AEONFLUX SHOW" /\ zs[1] = "r1" /\ Cardinality(Support(v)) < 2)
       /\ DoAll(<<Op("s_add", "fs", <<"f1", "f2">>)>> \o Combine("FP", v, Bases) \o Combine("FQ", w, MBases) \o Present(m, zs[1], zs[2], X, ctx, op)
                \o Roster(m, zs[1], "C1", "o1", "SIGNAL GROUP MEMBERSHIP") \o Assemble("C1") \o CheckIt)
       /\ LET ok == CredGood(v, w, m) /\ ctx = "AEONFLUX SHOW" /\ X = "X"
          IN  good' = <<ok, ok, TRUE, m = "f1">>

(* The real credential of number n1, with a roster entry made up as a      *)
(* combination of what he knows, and an opening likewise.                  *)
EBases == <<"C1", "C2", "g", "h", "X", "P1">>
OBases == <<"o1", "o2", "c1">>
RosGood(v, w) ==  \* E = v1 C1 + v2 C2 + v3 g + v4 h ...; it commits to v1 f1 + v2 f2 + v4, with opening v1 o1 + v2 o2 + v3
    /\ v[1] = 1 /\ v[2] = 0 /\ v[4] = 0 /\ v[5] = 0 /\ v[6] = 0
    /\ w = <<1, 0, v[3]>>
RosterEntry ==
    \E v \in {vec}, ctx \in Pick({"SIGNAL GROUP MEMBERSHIP", "AEONFLUX SHOW"}), m \in Pick({"f1", "f2"}), op \in Pick({"pf", "pfref"}) :
    \E w \in (IF Sim THEN Pick(Vecs(3)) \cup {<<v[1], v[2], v[3]>>} ELSE {<<v[1], v[2], v[3]>>, <<1, 0, 0>>}) :
       /\ Sim \/ ((m = "f1" \/ ctx = "SIGNAL GROUP MEMBERSHIP") /\ op = "pfref") \/ (ctx = "SIGNAL GROUP MEMBERSHIP" /\ Cardinality(Support(v)) < 2)
       /\ DoAll(Combine("FE", v, EBases)
                \o <<OpConst("FO", 0)>> \o Flatten([i \in 1..3 |-> IF w[i] = 0 THEN <<>> ELSE <<Op("s_mul", "FOt", <<CReg[w[i]], OBases[i]>>), Op("s_add", "FO", <<"FO", "FOt">>)>>])
                \o <<Op("p_mul", "FP", <<"r3", "P1">>), Op("p_mul", "FQ", <<"r3", "Q1">>)>>
                \o Present("f1", "r1", "r2", "X", "AEONFLUX SHOW", "pfref") \o RosterBy(op, m, "r1", "FE", "FO", ctx) \o Assemble("FE") \o CheckIt)
       /\ good' = <<TRUE, TRUE, TRUE, m = "f1" /\ ctx = "SIGNAL GROUP MEMBERSHIP" /\ RosGood(v, w)>>

(* An issuance from somebody who is not the issuer: with a key of his own, *)
(* a tag that is made of those he knows, and any key commitment.           *)
IssuanceForged ==
    \E v \in {vec}, x \in Pick({"own", "real"}), k \in Pick({"own", "K1", "O"}), ctx \in Pick({"AEONFLUX ISSUANCE", "AEONFLUX SHOW"}),
       m \in Pick({"f1", "f2"}) :
       /\ Sim \/ ctx = "AEONFLUX ISSUANCE"
       /\ DoAll(Combine("FP", v, SubSeq(Bases, 1, 5))
                \o <<Op("s_mul", "b1", <<"f1", "r2">>), Op("s_add", "b2", <<"r1", "b1">>), Op("p_mul", "FQ", <<"b2", "FP">>),
                     Op("p_mul", "b3", <<"r1", "g">>), Op("p_mul", "b4", <<"r3", "h">>), Op("p_add", "Kown", <<"b3", "b4">>),
                     Op("p_mul", "Xown", <<"r2", "h">>),
                     Op("p_add", "KK", <<IF k = "own" THEN "Kown" ELSE k, "O">>), Op("p_add", "XX", <<IF x = "own" THEN "Xown" ELSE "X", "O">>),
                     OpPf("pfref", "fi", "issuance_revealed", ctx, <<"FP", "FQ", "KK", "g", "h", "XX">>, <<"r1", "r2", "r3", "b1">>)>>
                \o [i \in 1..5 |-> OpN("pf_get", "y" \o ToString(i), <<"fi">>, i - 1)]
                \o <<OpF("msg_new", "FI", <<"KK", "FP", "FQ", m, "y1", "y2", "y3", "y4", "y5">>, "iss"), Chk("fin", <<"u1", "FI">>), Chk("fin", <<"u0", "FI">>),
                     Chk("usr", <<"u1">>), Chk("usr", <<"u0">>)>>)
       /\ good' = <<FALSE, FALSE>>

(* Somebody who verifies what the issuer did not yet verify: proofs that   *)
(* were not computed at all.                                               *)
Trivial ==
    \E cs \in {vec}, src \in Pick({"real", "O", "sum"}) :
       /\ DoAll((CASE src = "real" -> <<Get("FP", "s1", "P"), Get("CQ", "s1", "CQ"), Get("Cm", "s1", "Cm")>>
                   [] src = "O" -> <<Op("p_add", "FP", <<"O", "O">>), Op("p_add", "CQ", <<"O", "O">>), Op("p_add", "Cm", <<"O", "O">>)>>
                   [] src = "sum" -> <<Op("p_add", "FP", <<"SP", "P3">>), Op("p_add", "CQ", <<"SC", "Q3">>), Op("p_add", "Cm", <<"SM", "P3">>)>>)
                \o [i \in 1..4 |-> Op("s_add", <<"fc", "fs1", "fs2", "fs3">>[i], <<cs[i], "c0">>)]
                \o [i \in 1..4 |-> Op("s_add", <<"rc", "rs1", "rs2", "rs3">>[i], <<cs[i], "c0">>)]
                \o Assemble("C1") \o CheckIt)
       /\ good' = <<FALSE, FALSE, TRUE, FALSE>>

(* Somebody who chooses what he commits to, and what he makes a statement  *)
(* about, after the challenge, which he computes by hand, in the hope that *)
(* whoever verifies leaves something (skip) out of the transcript.         *)
Lin(o, ts) ==     \* o := sum of scalar * point
    <<OpNew("p_zero", o)>> \o Flatten([i \in 1..Len(ts) |-> <<Op("p_mul", o \o "t", ts[i]), Op("p_add", o, <<o, o \o "t">>)>>])
Resp(o, r, c, w) == <<Op("s_mul", o \o "t", <<c, w>>), Op("s_add", o, <<r, o \o "t">>)>>     \* o := r + c*w
Copied(o, p) == <<Op("p_add", o, <<p, "O">>)>>
Solved(o, ts, com, c) == Lin(o, ts) \o <<Op("p_sub", o, <<o, com>>), Op("s_inv", "ci", <<c>>), Op("p_mul", o, <<"ci", o>>)>>
Rs(os) == Flatten([i \in 1..Len(os) |-> <<OpNew("s_rand", os[i])>>])
Own == <<Op("p_mul", "FP", <<"r3", "P1">>), Op("p_mul", "FQ", <<"r3", "Q1">>)>>

AdaptiveRoster(mode, skip) ==
    LET E == IF mode = "true" THEN "C1" ELSE "C2" IN
    /\ DoAll(Own \o Present("f1", "r1", "r2", "X", "AEONFLUX SHOW", "pfref") \o Rs(<<"rm", "rz", "ra", "rb">>)
             \o Lin("com0", <<<<"rm", "FP">>, <<"rz", "h">>>>)
             \o Lin("com1", <<<<IF mode = "true" THEN "rm" ELSE "ra", "h">>, <<"rb", "g">>>>)
             \o <<OpChal("rc", "committed_values_equal", "SIGNAL GROUP MEMBERSHIP", <<"g", "h", "FP", "Cm", E>>, <<"com0", "com1">>, skip)>>
             \o (IF mode \in {"false0", "solveCm"} THEN Resp("rs1", "ra", "rc", "f2") ELSE Resp("rs1", "rm", "rc", "f1"))
             \o Resp("rs2", "rz", "rc", "r1") \o Resp("rs3", "rb", "rc", IF mode = "true" THEN "o1" ELSE "o2")
             \o (CASE mode = "solveE" -> Solved("FE", <<<<"rs1", "h">>, <<"rs3", "g">>>>, "com1", "rc")
                   [] mode = "solveCm" -> Solved("Cm", <<<<"rs1", "FP">>, <<"rs2", "h">>>>, "com0", "rc") \o Copied("FE", E)
                   [] OTHER -> Copied("FE", E))
             \o Assemble("FE") \o CheckIt)
    /\ good' = <<mode # "solveCm", mode # "solveCm", TRUE, mode = "true" /\ skip = <<>> >>

AdaptiveCredential(mode, skip) ==
    LET m == IF mode = "wrongm" THEN "f2" ELSE "f1" IN
    /\ DoAll((IF mode = "nocred" THEN <<Op("p_mul", "FP", <<"r3", "g">>), OpNew("p_rand", "FQ")>> ELSE Own)
             \o Present(m, "r1", "r2", "X", "AEONFLUX SHOW", "pfref") \o Rs(<<"rm", "rz", "ra", "rb">>)
             \o (IF mode = "falseV" THEN <<OpNew("p_rand", "RR"), Op("p_add", "CQ", <<"FQ", "RR">>), Op("p_sub", "V", <<"a4", "RR">>)>>
                 ELSE IF mode = "nocred" THEN <<OpNew("p_rand", "V")>> ELSE <<>>)
             \o Lin("com0", <<<<"rm", "FP">>, <<"rz", "h">>>>)
             \o Lin("com1", <<<<IF mode = "solveV" THEN "ra" ELSE "rz", "X">>, <<"rb", "h">>>>)
             \o <<OpChal("fc", "valid_credential", "AEONFLUX SHOW", <<"g", "h", "X", "FP", "V", "Cm">>, <<"com0", "com1">>, skip)>>
             \o Resp("fs1", "rm", "fc", m) \o Resp("fs2", "rz", "fc", "r1") \o Resp("fs3", "rb", "fc", "mzq")
             \o (IF mode = "solveV" THEN Solved("V", <<<<"fs2", "X">>, <<"fs3", "h">>>>, "com1", "fc") \o <<Op("p_add", "CQ", <<"FQ", "a4">>), Op("p_sub", "CQ", <<"CQ", "V">>)>>
                 ELSE <<>>)
             \o Roster("f1", "r1", "C1", "o1", "SIGNAL GROUP MEMBERSHIP") \o Assemble("C1") \o CheckIt)
    /\ LET ok == mode = "true" /\ skip = <<>> IN good' = <<ok, ok, TRUE, mode # "wrongm">>

AdaptiveIssuance(mode, skip) ==
    /\ DoAll(Rs(<<"x0", "xt", "rx0", "rx1", "rt", "rmx", "mx">>)
             \o <<Op("p_mul", "FP", <<"r3", "g">>), Op("s_add", "b2", <<"x0", "mx">>)>>
             \o (IF mode = "fake" THEN <<Op("p_mul", "FQ", <<"b2", "FP">>)>> ELSE <<OpNew("p_rand", "FQ")>>)
             \o Lin("KK", <<<<"x0", "g">>, <<"xt", "h">>>>)
             \o Lin("com0", <<<<"rx0", "FP">>, <<"rmx", "FP">>>>) \o Lin("com1", <<<<"rx0", "g">>, <<"rt", "h">>>>) \o Lin("com2", <<<<"rx1", "h">>>>)
             \o <<OpChal("y1", "issuance_revealed", "AEONFLUX ISSUANCE", <<"FP", "FQ", "KK", "g", "h", "X">>, <<"com0", "com1", "com2">>, skip)>>
             \o Resp("y2", "rx0", "y1", "x0") \o Resp("y3", "rx1", "y1", "x0") \o Resp("y4", "rt", "y1", "xt") \o Resp("y5", "rmx", "y1", "mx")
             \o <<OpF("msg_new", "FI", <<"KK", "FP", "FQ", "f1", "y1", "y2", "y3", "y4", "y5">>, "iss"), Chk("fin", <<"u1", "FI">>), Chk("fin", <<"u0", "FI">>),
                  Chk("usr", <<"u1">>), Chk("usr", <<"u0">>)>>)
    /\ good' = <<FALSE, FALSE>>

(* Somebody who guesses the challenge: of many honest messages, at least   *)
(* 120 of its bits vary.                                                   *)
Guess(kind) ==
    LET n == 64 nm(x, i) == "x" \o x \o ToString(i) IN
    /\ DoAll(Flatten([i \in 1..n |-> IF kind = "guess_issuance" THEN <<Op("issue", nm("m", i), <<"i1", "n1">>), Get(nm("c", i), nm("m", i), "c")>>
                                     ELSE <<Op("show", nm("m", i), <<"u1", "e1">>), Get(nm("c", i), nm("m", i), IF kind = "guess_roster" THEN "rc" ELSE "c")>>])
             \o <<ChkN("s_wide", [i \in 1..n |-> nm("c", i)], 120)>>)
    /\ good' = <<TRUE>>

Modes == [adaptive_roster |-> {"true", "false0", "false1", "solveE", "solveCm"},
          adaptive_credential |-> {"true", "nocred", "falseV", "solveV", "wrongm"},
          adaptive_issuance |-> {"fake", "fakeQ"}]
Items == [adaptive_roster |-> 5 + 2, adaptive_credential |-> 6 + 2, adaptive_issuance |-> 6 + 3]
Publics == [adaptive_roster |-> 5, adaptive_credential |-> 6, adaptive_issuance |-> 6]
Skips(x) == {s \in SUBSET (1..Items[x]) : Cardinality(s) <= MaxNonZero} \cup {1..Publics[x], (Publics[x] + 1)..Items[x], 1..Items[x]}

Guesses == {"guess_credential", "guess_roster", "guess_issuance"}
Choose ==
    /\ goal = ""
    /\ goal' \in Pick(Goals)
    /\ vec' \in Pick(CASE goal' = "credential" -> Vecs(7) [] goal' = "roster" -> Vecs(6) [] goal' = "issuance" -> Vecs(5)
                        [] goal' = "trivial" -> [1..4 -> {"c0", "c1", "r1"}]
                        [] goal' \in Guesses -> {<<>>}
                        [] OTHER -> Modes[goal'] \X {SetToSortSeq(s, <) : s \in Skips(goal')})
    /\ UNCHANGED <<st, ops, hist, done, good>>
Fabricate ==
    /\ goal # "" /\ ~done /\ done' = TRUE /\ UNCHANGED <<goal, vec>>
    /\ CASE goal = "credential" -> Credential [] goal = "roster" -> RosterEntry [] goal = "issuance" -> IssuanceForged [] goal = "trivial" -> Trivial
         [] goal \in Guesses -> Guess(goal)
         [] goal = "adaptive_roster" -> AdaptiveRoster(vec[1], vec[2])
         [] goal = "adaptive_credential" -> AdaptiveCredential(vec[1], vec[2])
         [] goal = "adaptive_issuance" -> AdaptiveIssuance(vec[1], vec[2])
Next == Choose \/ Fabricate
Spec == Init /\ [][Next]_vars

Verdicts == LET S == SelectSeq(hist, LAMBDA h : h.e.op \in {"ver", "aver", "unver", "vros", "fin", "s_wide"})
                n == Len(good) IN [i \in 1..n |-> S[Len(S) - n + i].ok]
\* C02, C03, C04: nothing but what is good is accepted (and all that is, is).
Forged == done => Verdicts = good
=============================================================================
