-------------------------------- MODULE Wired --------------------------------
(* The proofs inside of the messages of the protocol are those documented: *)
(* an independent implementation verifies them, given their publics and    *)
(* the transcript contexts of the documentation, and no others; and what   *)
(* it proves is accepted by the parties.                                   *)
EXTENDS Driver

CONSTANTS MaxSteps

VARIABLES n
vars == <<st, ops, hist, done, n>>

Get(o, m, f) == OpF("msg_get", o, <<m>>, f)
Setup(raw) ==
    (IF raw THEN <<OpNew("s_rand", "k"), OpNew("p_g", "g"), Op("p_mul", "h", <<"k", "g">>), Op("prm_raw", "p1", <<"h">>)>>
     ELSE <<OpNew("prm_new", "p1"), Op("prm_g", "g", <<"p1">>), Op("prm_h", "h", <<"p1">>)>>)
    \o << OpN("sk_new", "k1", <<>>, 1), Op("iss_raw", "i1", <<"p1", "k1">>), Op("iss_pk", "q1", <<"i1">>), OpN("pk_x", "X", <<"q1">>, 0),
    OpN("sk_x", "x0", <<"k1">>, 0), OpN("sk_x", "x1", <<"k1">>, 1), OpNew("s_rand", "w1"), OpNew("s_rand", "w2"), OpNew("s_rand", "w3"), OpNew("s_rand", "w4"),
    OpNum("n1", <<1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4>>), Op("phone", "f1", <<"n1">>), OpNum("n2", <<3, 3, 7>>), Op("phone", "f2", <<"n2">>),
    Op("usr_new", "u1", <<"p1", "q1", "n1">>), Op("usr_new", "u2", <<"p1", "q1", "n2">>), Op("ausr_new", "u3", <<"p1", "q1">>),
    Op("ros", "e1", <<"n1", "p1">>), Op("ros", "e2", <<"n2", "p1">>),
    Op("ros_C", "C1", <<"e1">>), Op("ros_o", "o1", <<"e1">>), Op("ros_C", "C2", <<"e2">>), Op("ros_o", "o2", <<"e2">>) >>

Init == \E raw \in {TRUE, FALSE} : Begin(Setup(raw)) /\ n = 0

Ctxs == {"AEONFLUX ISSUANCE", "AEONFLUX SHOW", "SIGNAL GROUP MEMBERSHIP"}
Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
\* Have the independent implementation verify a proof, in its context and in the others.
Verify(pf, kind, ctx, pubs) ==
    <<ChkPf("pfvref", pf, kind, ctx, pubs), ChkPf("pfv", pf, kind, ctx, pubs)>>
    \o [i \in 1..2 |-> ChkPf("pfvref", pf, kind, SetToSeq(Ctxs \ {ctx})[i], pubs)]
RawPf(o, kind, cs) == [op |-> "pf_raw", o |-> o, kind |-> kind, a |-> cs]
Cat(a, b) == a \o b

CheckIssuance(m) ==
    LET r(x) == m \o x fs == <<"Cx0", "P", "Q", "c", "s1", "s2", "s3", "s4">> IN
    Cat(([i \in 1..8 |-> Get(r(fs[i]), m, fs[i])] \o <<RawPf(r("f"), "issuance_revealed", [i \in 1..5 |-> r(fs[i + 3])])>>),
        Verify(r("f"), "issuance_revealed", "AEONFLUX ISSUANCE", <<r("P"), r("Q"), r("Cx0"), "g", "h", "X">>))
\* V, from the issuer's key
CheckShow(m) ==
    LET r(x) == m \o x fs == <<"CQ", "P", "Cm", "c", "s1", "s2", "s3">> IN
    Cat(([i \in 1..7 |-> Get(r(fs[i]), m, fs[i])]
             \o <<Op("p_mul", r("a"), <<"x0", r("P")>>), Op("p_mul", r("b"), <<"x1", r("Cm")>>), Op("p_add", r("d"), <<r("a"), r("b")>>),
                  Op("p_sub", r("V"), <<r("d"), r("CQ")>>), RawPf(r("f"), "valid_credential", [i \in 1..4 |-> r(fs[i + 3])])>>),
        Verify(r("f"), "valid_credential", "AEONFLUX SHOW", <<"g", "h", "X", r("P"), r("V"), r("Cm")>>))
CheckRoster(m) ==
    LET r(x) == m \o x fs == <<"E", "rc", "r1", "r2", "r3">> IN
    Cat(([i \in 1..5 |-> Get(r(fs[i]), m, fs[i])] \o <<RawPf(r("g"), "committed_values_equal", [i \in 1..4 |-> r(fs[i + 1])])>>),
        Verify(r("g"), "committed_values_equal", "SIGNAL GROUP MEMBERSHIP", <<"g", "h", r("P"), r("Cm"), r("E")>>))

\* The library issues and shows.
Ours(u, num, e) ==
    LET m == Name("i") s == Name("s") show == IF u = "u3" THEN OpN("ashow", s, <<u>>, 1) ELSE Op("show", s, <<u, e>>) IN
    DoAll(Cat(Cat(Cat(Cat((<<Op("issue", m, <<"i1", num>>)>>), CheckIssuance(m)),
                            (<<Chk(IF u = "u3" THEN "afin" ELSE "fin", <<u, m>>), show>>)), CheckShow(s)),
                IF u = "u3" THEN (<<>>) ELSE CheckRoster(s)))

\* An independent implementation issues and shows, with secrets that are known (or even zero).
Theirs(u, f, C, o, z, zq) ==
    LET m == Name("i") s == Name("s") r(x) == m \o x q(x) == s \o x IN
    DoAll(<<
        \* the issuance
        Op("p_mul", r("P"), <<"w1", "g">>), Op("s_mul", r("mx"), <<f, "x1">>), Op("s_add", r("ex"), <<"x0", r("mx")>>), Op("p_mul", r("Q"), <<r("ex"), r("P")>>),
        Op("p_mul", r("K1"), <<"x0", "g">>), Op("p_mul", r("K2"), <<"w2", "h">>), Op("p_add", r("K"), <<r("K1"), r("K2")>>),
        OpPf("pfref", r("f"), "issuance_revealed", "AEONFLUX ISSUANCE", <<r("P"), r("Q"), r("K"), "g", "h", "X">>, <<"x0", "x1", "w2", r("mx")>>)>>
        \o [i \in 1..5 |-> OpN("pf_get", r("y" \o ToString(i)), <<r("f")>>, i - 1)]
        \o <<OpF("msg_new", m, <<r("K"), r("P"), r("Q"), f, r("y1"), r("y2"), r("y3"), r("y4"), r("y5")>>, "iss"), Chk("fin", <<u, m>>), Chk("usr", <<u>>),
        \* a presentation
        Op("p_mul", q("P"), <<"w3", r("P")>>), Op("p_mul", q("Q"), <<"w3", r("Q")>>),
        Op("p_mul", q("zqh"), <<zq, "h">>), Op("p_add", q("CQ"), <<q("Q"), q("zqh")>>),
        Op("p_mul", q("mP"), <<f, q("P")>>), Op("p_mul", q("zh"), <<z, "h">>), Op("p_add", q("Cm"), <<q("mP"), q("zh")>>),
        Op("p_mul", q("zX"), <<z, "X">>), Op("p_sub", q("V"), <<q("zX"), q("zqh")>>), Op("s_neg", q("mzq"), <<zq>>),
        OpPf("pfref", q("f"), "valid_credential", "AEONFLUX SHOW", <<"g", "h", "X", q("P"), q("V"), q("Cm")>>, <<f, z, q("mzq")>>),
        OpPf("pfref", q("r"), "committed_values_equal", "SIGNAL GROUP MEMBERSHIP", <<"g", "h", q("P"), q("Cm"), C>>, <<f, z, o>>)>>
        \o [i \in 1..4 |-> OpN("pf_get", q("y" \o ToString(i)), <<q("f")>>, i - 1)] \o [i \in 1..4 |-> OpN("pf_get", q("z" \o ToString(i)), <<q("r")>>, i - 1)]
        \o <<OpF("msg_new", s, <<C, q("CQ"), q("P"), q("Cm"), q("y1"), q("y2"), q("y3"), q("y4"), q("z1"), q("z2"), q("z3"), q("z4")>>, "pres"),
             OpF("msg_new", q("a"), <<q("CQ"), q("P"), q("Cm"), q("y1"), q("y2"), q("y3"), q("y4")>>, "apres"),
             Op("ver", q("v"), <<"i1", s>>), OpN("aver", q("av"), <<"i1", q("a")>>, 1), Op("vros", q("w"), <<"i1", q("v")>>)>>)

Step ==
    /\ ~done /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED done
    /\ \/ \E x \in Pick({<<"u1", "n1", "e1">>, <<"u2", "n2", "e2">>, <<"u3", "n1", "e1">>, <<"u3", "n2", "e2">>}) : Ours(x[1], x[2], x[3])
       \/ \E x \in Pick({<<"u1", "f1", "C1", "o1">>, <<"u2", "f2", "C2", "o2">>}), z \in Pick({"w4", "zero"}), zq \in Pick({"w3", "zero", "w4"}) :
             /\ z # "zero" /\ zq # "zero"
             /\ Theirs(x[1], x[2], x[3], x[4], z, zq)
Finish == ~done /\ n > 0 /\ (Sim => n = MaxSteps) /\ done' = TRUE /\ UNCHANGED <<st, ops, hist, n>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* C08: exactly as wanted
Finished == \A i \in 1..Len(hist) : hist[i].e.op \in {"fin", "afin", "ver", "aver", "vros", "show", "ashow", "pfv"} => hist[i].ok
Context == \A i \in 1..Len(hist) : hist[i].e.op = "pfvref" =>
              hist[i].ok = (hist[i].e.ctx = CASE hist[i].e.kind = "issuance_revealed" -> "AEONFLUX ISSUANCE"
                                              [] hist[i].e.kind = "valid_credential" -> "AEONFLUX SHOW"
                                              [] hist[i].e.kind = "committed_values_equal" -> "SIGNAL GROUP MEMBERSHIP")
=============================================================================
