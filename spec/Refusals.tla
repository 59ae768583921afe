------------------------------ MODULE Refusals ------------------------------
(* Refusals name their cause.  Things are done that must be refused for    *)
(* one reason or for several, between others that succeed; pred says,      *)
(* without any algebra, what the error may then be (nothing, if there must *)
(* be none), and Machine's Reasons says it from the values.                *)
EXTENDS Driver

CONSTANT MaxSteps

VARIABLES gh,       \* [msg: message |-> what is wrong with it, cred: user |-> credential's origin or "", ros: entry |-> number]
          said,     \* for every step: <<what Machine says of it, what is predicted>>
          steps
vars == <<st, ops, hist, done, gh, said, steps>>

Numbers == {"a", "b", "L", "M"}
Long == {"L", "M"}
Issuers == {"i", "j", "iE", "iN", "iL"}     \* two good ones, and without public key, without secret key, with a key that is too long
Full == {"i", "j"}
SUsers == {"ua", "uc", "uE", "uL"}           \* without and with a credential; of issuers without public key, and with one that is too long
AUsers == {"va", "vc", "vE", "vL"}
KeyLen == [k0 |-> 0, k1 |-> 1, k3 |-> 3]

Setup == <<
    OpNew("prm_new", "p"), OpNew("prm_new", "p2"), Op("prm_h", "h", <<"p">>),
    OpNum("a", <<0, 0, 1, 8>>), OpNum("b", <<0, 0, 1, 8, 0>>), OpNum("L", [n \in 1..27 |-> (n * 7) % 10]), OpNum("M", [n \in 1..64 |-> n % 10]),
    Op("phone", "xa", <<"a">>), OpNew("s_rand", "y"), OpNew("s_rand", "w"), OpConst("z", 0),
    Op("iss_new", "i", <<"p">>), Op("iss_pk", "pk", <<"i">>), Op("iss_new", "j", <<"p">>),
    OpN("sk_new", "k0", <<>>, 0), OpN("sk_new", "k1", <<>>, 1), OpN("sk_new", "k3", <<>>, 3),
    OpN("sk_x", "x0", <<"i">>, 0), OpN("sk_x", "x1", <<"i">>, 1), Op("sk_raw", "kL", <<"x0", "x1", "y">>),
    Op("sk_pub", "pk0", <<"k0", "h">>), Op("sk_pub", "pkL", <<"kL", "h">>), Op("sk_pub", "pk1", <<"k1", "h">>),
    Op("iss_key", "iE", <<"p", "pk0", "k1">>), Op("iss_key", "iN", <<"p", "pk1", "k0">>), Op("iss_key", "iL", <<"p", "pkL", "kL">>),
    Op("usr_new", "ua", <<"p", "pk", "a">>), Op("usr_new", "uc", <<"p", "pk", "a">>), Op("usr_new", "uE", <<"p", "pk0", "a">>), Op("usr_new", "uL", <<"p", "pkL", "a">>),
    Op("ausr_new", "va", <<"p", "pk">>), Op("ausr_new", "vc", <<"p", "pk">>), Op("ausr_new", "vE", <<"p", "pk0">>), Op("ausr_new", "vL", <<"p", "pkL">>),
    Op("issue", "mi", <<"i", "a">>), Op("issue", "mb", <<"i", "b">>), Op("issue", "mj", <<"j", "a">>),
    Op("ros", "e", <<"a", "p">>), Op("ros", "f", <<"b", "p">>), Op("p_zero", "O", <<>>),
    Chk("fin", <<"uc", "mi">>), Chk("afin", <<"vc", "mi">>),
    Op("show", "q", <<"uc", "e">>), Op("show", "qf", <<"uc", "f">>), OpN("ashow", "aq", <<"vc">>, 1), Op("ver", "v", <<"i", "q">>), Op("ver", "vf", <<"i", "qf">>),
    Op("mac", "t", <<"k1", "y">>), Op("mac", "t3", <<"k3", "y", "y", "z">>), Op("mac", "t0", <<"k0">>) >>

Gh0 == [ msg  |-> [mi |-> <<"i", "a">>, mb |-> <<"i", "b">>, mj |-> <<"j", "a">>],
         pres |-> [q |-> [by |-> "i", ok |-> TRUE, mem |-> TRUE, a |-> FALSE], qf |-> [by |-> "i", ok |-> TRUE, mem |-> FALSE, a |-> FALSE],
                   aq |-> [by |-> "i", ok |-> TRUE, mem |-> FALSE, a |-> TRUE]],
         ver  |-> [v |-> TRUE, vf |-> FALSE],
         cred |-> [u \in SUsers \cup AUsers |-> IF u \in {"uc", "vc"} THEN "i" ELSE ""],
         ros  |-> [e |-> "a", f |-> "b"] ]

Init == Begin(Setup) /\ gh = Gh0 /\ said = <<>> /\ steps = 0

When(b, r) == IF b THEN {r} ELSE {}
\* Do es, the last of which is to be refused for one of the reasons (if there are any).
Try(es, reasons, g2) ==
    /\ DoAll(es)
    /\ LET before == Run(st, SubSeq(es, 1, Len(es) - 1), <<>>).st
           last == es[Len(es)]
       IN  said' = Append(said, <<IF Exec(before, last).ok THEN {} ELSE Reasons(before, last), reasons>>)
    /\ gh' = IF reasons = {} THEN g2 ELSE gh
    /\ steps' = steps + 1
    /\ UNCHANGED done

Issue(i, n) ==
    LET o == Name("m")
        keys == When(i = "iE", "NoIssuerParameters") \cup When(i = "iN", "NoIssuerKey")
        rs == When(n \in Long, "MissingData") \cup keys
    IN  Try(<<Op("issue", o, <<i, n>>)>>, IF rs = {} /\ i = "iL" THEN {"MacCreation"} ELSE rs, [gh EXCEPT !.msg = (o :> <<i, n>>) @@ @])
AttributeLists == {<<>>, <<"xa">>, <<"y">>, <<"y", "xa">>, <<"xa", "y", "z">>}
IssueAttributes(i, as) ==
    LET o == Name("m")
        keys == When(i = "iE", "NoIssuerParameters") \cup When(i = "iN", "NoIssuerKey")
        fits == i \in Full /\ Len(as) = 1
    IN  ~(i = "iL" /\ Len(as) = 2) /\
        Try(<<Op("aissue", o, <<i>> \o as)>>, IF fits THEN {} ELSE IF keys = {} THEN {"MacCreation"} ELSE keys,
            [gh EXCEPT !.msg = (o :> <<i, IF as = <<"xa">> THEN "a" ELSE "other">>) @@ @])

\* Users whose issuer's key begins with that of i accept what i issued.
Trusts(u) == IF u \in {"uE", "vE"} THEN "" ELSE "i"
Empty(u) == u \in {"uE", "vE"}
FinReasons(u, by, num) ==
    When(Empty(u), "NoIssuerParameters") \cup When(u \in SUsers /\ num # "a", "BadAttribute")
    \cup When(~Empty(u) /\ by # Trusts(u), "CredentialIssuance")
FinOp(u) == IF u \in SUsers THEN "fin" ELSE "afin"
Finish1(u, m) ==
    Try(<<Chk(FinOp(u), <<u, m>>)>>, FinReasons(u, gh.msg[m][1], gh.msg[m][2]), [gh EXCEPT !.cred[u] = gh.msg[m][1]])
FinishNone(u) == Try(<<Chk(FinOp(u), <<u>>)>>, {"CredentialIssuance"} \cup When(Empty(u), "NoIssuerParameters"), gh)
FinishAttributes(u, m, as) ==
    u \in SUsers /\ Try(<<Chk("finx", <<u, m>> \o as)>>, FinReasons(u, gh.msg[m][1], IF as = <<"xa">> THEN "a" ELSE "other"), [gh EXCEPT !.cred[u] = gh.msg[m][1]])
AlterIssuance(m, f) ==
    LET o == Name("m") IN
    Try(<<OpF("msg_set", o, <<m, IF f \in {"P", "Q", "Cx0"} THEN "h" ELSE "w">>, f)>>, {},
        [gh EXCEPT !.msg = (o :> IF f = "m" THEN <<gh.msg[m][1], "other">> ELSE <<"nobody", gh.msg[m][2]>>) @@ @])

TooMany(u) == u \in {"uL", "vL", "uE", "vE"}
ShowOne(u, e) ==
    LET o == Name("q") IN
    Try(<<Op("show", o, <<u, e>>)>>, When(gh.cred[u] = "", "MissingData") \cup When(TooMany(u), "WrongNumberOfAttributes"),
        [gh EXCEPT !.pres = (o :> [by |-> gh.cred[u], ok |-> TRUE, mem |-> gh.ros[e] = "a", a |-> FALSE]) @@ @])
ShowNonces(u, n) ==
    LET o == Name("q") IN
    Try(<<OpN("ashow", o, <<u>>, n)>>, When(gh.cred[u] = "", "MissingData") \cup When(TooMany(u) \/ n # 1, "WrongNumberOfAttributes"),
        [gh EXCEPT !.pres = (o :> [by |-> gh.cred[u], ok |-> TRUE, mem |-> FALSE, a |-> TRUE]) @@ @])
AlterPresentation(q, f) ==
    LET o == Name("q") IN
    Try(<<OpF("msg_set", o, <<q, IF f \in {"P", "CQ", "Cm"} THEN "h" ELSE IF f = "O" THEN "O" ELSE "w">>, IF f = "O" THEN "P" ELSE f)>>, {},
        [gh EXCEPT !.pres = (o :> [gh.pres[q] EXCEPT !.ok = FALSE, !.mem = FALSE]) @@ @])

Accepts(i, q) == gh.pres[q].ok /\ gh.pres[q].by = i
Verify(i, q) ==
    LET o == Name("v") IN
    ~gh.pres[q].a /\ Try(<<Op("ver", o, <<i, q>>)>>, When(~Accepts(i, q), "MacVerification"), [gh EXCEPT !.ver = (o :> gh.pres[q].mem) @@ @])
VerifyCounts(i, q, n, as) ==
    gh.pres[q].a /\ Try(<<OpN("aver", Name("v"), <<i, q>> \o as, n)>>,
                        IF n # 1 \/ as # <<>> THEN {"WrongNumberOfAttributes"} ELSE When(~Accepts(i, q), "MacVerification"), gh)
VerifyOthers(i, q, b, s) ==
    LET x == Name("x")
        ps == [k \in 1..Len(b) |-> IF b[k] = "x" THEN x ELSE b[k]]
    IN  Try(<<OpF("msg_get", x, <<q>>, "Cm"), [op |-> "verx", a |-> <<i, q>>, p |-> ps, s |-> s]>>,
            IF Len(b) # 1 \/ s # <<>> THEN {"WrongNumberOfAttributes"} ELSE When(~Accepts(i, q) \/ b # <<"x">>, "MacVerification"), gh)
Member(v) == Try(<<Op("vros", Name("c"), <<"i", v>>)>>, When(~gh.ver[v], "VerificationFailure"), gh)

MakeMac(k, as) == Try(<<Op("mac", Name("t"), <<k>> \o as)>>, When(Len(as) # KeyLen[k], LengthError(KeyLen[k])), gh)
Tags == [t |-> <<"k1", <<"y">>>>, t3 |-> <<"k3", <<"y", "y", "z">>>>, t0 |-> <<"k0", <<>>>>]
Messages == {<<>>, <<"y">>, <<"w">>, <<"y", "y">>, <<"y", "y", "z">>, <<"z", "y", "y">>, <<"y", "y", "z", "z">>}
CheckMac(k, t, as) ==
    Try(<<Chk("macv", <<k, t>> \o as)>>, IF Len(as) # KeyLen[k] THEN {LengthError(KeyLen[k])} ELSE When(Tags[t] # <<k, as>>, "AuthenticationError"), gh)

NewUser(pk, n) == Try(<<Op("usr_new", Name("n"), <<"p", pk, n>>)>>, When(n \in Long, "MissingData"), gh)
Entry(n) == LET o == Name("e") IN Try(<<Op("ros", o, <<n, "p">>)>>, When(n \in Long, "LengthExceeded"), [gh EXCEPT !.ros = (o :> n) @@ @])
OpenEntry(e, n, p) == Try(<<Chk("rosopen", <<e, n, p>>)>>, IF n \in Long THEN {"LengthExceeded"} ELSE When(n # gh.ros[e] \/ p # "p", "InvalidPhoneNumber"), gh)
Number(op, n) ==
    Try(CASE op = "phone"   -> <<Op("phone", Name("n"), <<n>>)>>
          [] op = "s_phone" -> <<Op("s_phone", Name("n"), <<n>>)>>
          [] op = "cpn"     -> <<Op("cpn", Name("n"), <<n, "y", "h", "h">>)>>
          [] op = "eg_phone" -> <<Op("eg_gen", Name("g"), <<>>), Op("eg_phone", Name("n"), <<Name("g"), n, "y">>)>>,
        When(n \in Long, "LengthExceeded"), gh)

\* Everything there is to say, and what becomes of it when it is handed on
Errors == [ MacError |-> {"KeypairDeserialisation", "PointDecompressionError", "ScalarFormatError", "AuthenticationError"},
           PhoneNumberError |-> {"LengthExceeded", "InvalidPhoneNumber"},
           CredentialError |-> {"BadAttribute", "CredentialIssuance", "MacCreation", "MacVerification", "MissingData", "NoIssuerKey", "NoIssuerParameters",
                                "NoSystemParameters", "PointDecompressionError", "ScalarFormatError", "WrongNumberOfAttributes", "WrongNumberOfBytes", "VerificationFailure"} ]
Say(t, f, n, to) == [op |-> "say", t |-> t, f |-> f, n |-> n, to |-> to]
Sayings == {Say(t, f, 0, "") : t \in DOMAIN Errors, f \in UNION {Errors[x] : x \in DOMAIN Errors}}
AllSayings ==
    SetToSeq({s \in Sayings : s.f \in Errors[s.t]}
             \cup {Say("MacError", "MessageLengthError", n, "") : n \in {0, 1, 2, 12, 21, 32, 64, 256, 65536}}
             \cup {Say("MacError", f, 0, "CredentialError") : f \in Errors["MacError"] \cup {"MessageLengthError"}}
             \cup {Say("PhoneNumberError", f, 0, "CredentialError") : f \in Errors["PhoneNumberError"]}
             \cup {Say("CredentialError", f, 0, "PhoneNumberError") : f \in Errors["CredentialError"]}
             \cup {Say("None", "", 0, to) : to \in DOMAIN Errors})

Finish == /\ ~done /\ steps > 0
          /\ IF Sim \/ steps = MaxSteps THEN DoAll(AllSayings) ELSE UNCHANGED <<st, ops, hist>>
          /\ done' = TRUE
          /\ UNCHANGED <<gh, said, steps>>

Msgs == DOMAIN gh.msg
Press == DOMAIN gh.pres
Changes == {"Cx0", "P", "Q", "m", "c", "s1", "s2", "s3", "s4"}
More == ~done /\ steps < MaxSteps
Next ==
    \/ More /\ \E i \in Pick(Issuers), n \in Pick(Numbers) : Issue(i, n)
    \/ More /\ \E i \in Pick(Issuers), as \in Pick(AttributeLists) : IssueAttributes(i, as)
    \/ More /\ \E u \in Pick(SUsers \cup AUsers), m \in Pick(Msgs) : Finish1(u, m)
    \/ More /\ \E u \in Pick(SUsers \cup AUsers) : FinishNone(u)
    \/ More /\ \E u \in Pick(SUsers), m \in Pick(Msgs), as \in Pick(AttributeLists) : FinishAttributes(u, m, as)
    \/ More /\ Sim /\ \E m \in Pick(Msgs), f \in Pick(Changes) : AlterIssuance(m, f)
    \/ More /\ \E u \in Pick(SUsers), e \in Pick(DOMAIN gh.ros) : ShowOne(u, e)
    \/ More /\ \E u \in Pick(AUsers), n \in Pick(0..3) : ShowNonces(u, n)
    \/ More /\ Sim /\ \E q \in Pick(Press), f \in Pick({"P", "CQ", "Cm", "c", "s1", "s2", "s3", "O"}) : AlterPresentation(q, f)
    \/ More /\ \E i \in Pick(Full), q \in Pick({q \in Press : ~gh.pres[q].a}) : Verify(i, q)
    \/ More /\ \E i \in Pick(Full), q \in Pick({q \in Press : gh.pres[q].a}), n \in Pick(0..3), as \in Pick({<<>>, <<"y">>, <<"z", "y">>}) : VerifyCounts(i, q, n, as)
    \/ More /\ \E i \in Pick(Full), q \in Pick(Press), b \in Pick({<<>>, <<"x">>, <<"h">>, <<"x", "O">>, <<"x", "h", "x">>}), s \in Pick({<<>>, <<"y">>, <<"z">>}) :
                  VerifyOthers(i, q, b, s)
    \/ More /\ \E v \in Pick(DOMAIN gh.ver) : Member(v)
    \/ More /\ \E k \in Pick(DOMAIN KeyLen), as \in Pick(Messages) : MakeMac(k, as)
    \/ More /\ \E k \in Pick(DOMAIN KeyLen), t \in Pick(DOMAIN Tags), as \in Pick(Messages) : CheckMac(k, t, as)
    \/ More /\ \E pk \in Pick({"pk", "pk0", "pkL"}), n \in Pick(Numbers) : NewUser(pk, n)
    \/ More /\ \E n \in Pick(Numbers) : Entry(n)
    \/ More /\ \E e \in Pick(DOMAIN gh.ros), n \in Pick(Numbers), p \in Pick({"p", "p2"}) : OpenEntry(e, n, p)
    \/ More /\ \E op \in Pick({"phone", "s_phone", "cpn", "eg_phone"}), n \in Pick(Numbers) : Number(op, n)
    \/ (Sim => ~More) /\ Finish

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* C22: what can be said of a refusal, from the values, is what is         *)
(* predicted; and nothing is refused without a reason.                     *)
AsPredicted == \A n \in 1..Len(said) : said[n][1] = said[n][2]
Library == {"issue", "aissue", "fin", "afin", "finx", "show", "ashow", "ver", "aver", "verx", "vros", "mac", "macv", "usr_new", "ros", "rosopen", "phone", "s_phone", "cpn", "eg_phone", "say"}
Gone == [n \in 1..Len(hist) |-> hist[n].ok \/ hist[n].e.op \in Library]
NothingElse == \A n \in 1..Len(hist) : Gone[n]
=============================================================================
