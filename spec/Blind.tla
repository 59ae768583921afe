-------------------------------- MODULE Blind --------------------------------
(* Issuing without learning the attribute, composed of what the library    *)
(* exports: the user encrypts the attribute and proves that the ciphertext *)
(* is one; the issuer computes an encryption of the MAC from it, by the    *)
(* homomorphism, and proves that; the user decrypts the MAC.  What comes   *)
(* of it is a MAC on the attribute, and a credential that can be shown.    *)
(* (The library has the proofs, encryption and MACs, but not the functions *)
(* that would connect them.)  User and issuer may deviate.                 *)
EXTENDS Driver

CONSTANTS Attributes     \* how the attribute is chosen: subset of {"rand", "zero", "one", "minus", "phone"}
VARIABLES phase, user, issuer, attr
vars == <<st, ops, hist, done, phase, user, issuer, attr>>

UserWays == {"honest", "message", "nonce", "key", "commitment", "context"}
IssuerWays == {"honest", "x0", "x1", "t0", "key", "nox0", "noblinding", "norandom", "cipher"}
MakeAttr(how) == CASE how = "rand" -> <<OpNew("s_rand", "m")>> [] how = "zero" -> <<OpConst("m", 0)>> [] how = "one" -> <<OpConst("m", 1)>>
                   [] how = "minus" -> <<OpConst("u1", 1), Op("s_neg", "m", <<"u1">>)>> [] how = "phone" -> <<OpNum("n1", <<4, 9, 1, 7>>), Op("phone", "m", <<"n1">>)>>
Base(how) == MakeAttr(how) \o
    << OpNew("prm_new", "p"), Op("prm_g", "g", <<"p">>), Op("prm_h", "h", <<"p">>), OpN("sk_new", "sk", <<>>, 1), Op("iss_raw", "i", <<"p", "sk">>), Op("iss_pk", "pk", <<"i">>),
       OpN("sk_x", "x0", <<"sk">>, 0), OpN("sk_x", "x1", <<"sk">>, 1), OpN("pk_x", "X1", <<"pk">>, 0),
       OpNew("eg_gen", "k"), Op("eg_sk", "d", <<"k">>), Op("eg_pk", "D", <<"k">>), OpNew("eg_gen", "k2"), Op("eg_pk", "D2", <<"k2">>),
       OpNew("s_rand", "e0"), OpNew("s_rand", "nonce"), OpNew("s_rand", "r"), OpNew("p_rand", "R"), OpConst("one", 1), OpConst("z", 0), Op("s_add", "m2", <<"m", "one">>) >>

Init == /\ st = Init0 /\ hist = <<>> /\ ops = <<>> /\ done = FALSE /\ phase = "setup" /\ user = "" /\ issuer = "" /\ attr = ""
Setup == /\ phase = "setup" /\ phase' = "user"
         /\ \E how \in Pick(Attributes) : DoAll(Base(how)) /\ attr' = how
         /\ UNCHANGED <<done, user, issuer>>

\* mul-add: o = a*b + c*d
MulAdd(o, a, b, c, d) == << Op("p_mul", o \o "l", <<a, b>>), Op("p_mul", o \o "r", <<c, d>>), Op("p_add", o, <<o \o "l", o \o "r">>) >>
Encrypt == << OpN("enc", "E", <<"k", "m", "e0">>, 0), Op("p_mul", "E0", <<"e0", "g">>) >> \o MulAdd("E1", "m", "g", "e0", "D") \o << Op("enc_raw", "Ex", <<"E0", "E1">>) >>
\* The request: how the statement and what the user claims differ
Request == /\ phase = "user" /\ phase' = "issuer"
    /\ \E w \in Pick(UserWays), op \in Pick({"pf", "pfref"}) :
         /\ user' = w
         /\ DoAll(Encrypt
              \o <<OpPf(op, "pi", "attributes_blinded", "blind request", <<"g", "h", IF w = "key" THEN "D2" ELSE "D", IF w = "commitment" THEN "R" ELSE "E0", "E1">>,
                        <<"d", IF w = "nonce" THEN "r" ELSE "e0", IF w = "message" THEN "m2" ELSE "m", "nonce">>),
                   ChkPf("pfv", "pi", "attributes_blinded", IF w = "context" THEN "blind" ELSE "blind request", <<"g", "h", "D", "E0", "E1">>),
                   ChkPf("pfvref", "pi", "attributes_blinded", IF w = "context" THEN "blind" ELSE "blind request", <<"g", "h", "D", "E0", "E1">>)>>)
    /\ UNCHANGED <<done, issuer, attr>>

\* The answer.  The issuer's own secrets: b, t0 = b*x1, s, and a blinded x0.
Answer == /\ phase = "issuer" /\ phase' = "finish"
    /\ \E w \in Pick(IssuerWays), op \in Pick({"pf", "pfref"}) :
         LET x1 == IF w = "x1" THEN "r" ELSE "x1"
             s == IF w = "norandom" THEN "z" ELSE "s"
             b == IF w = "noblinding" THEN "one" ELSE "b"
             t0 == IF w = "t0" THEN "r" ELSE "t0" IN
         /\ issuer' = w
         /\ DoAll(<< OpNew("s_rand", "b"), OpNew("s_rand", "s"), OpNew("s_rand", "x0t"), Op("p_mul", "P", <<b, "g">>) >>
              \o MulAdd("X0", "x0", "g", "x0t", "h")
              \o << Op("s_mul", "t0", <<b, x1>>), Op("p_mul", "T00", <<b, "X0">>), Op("p_mul", "T01", <<t0, "h">>) >>
              \o MulAdd("C0", s, "g", t0, IF w = "cipher" THEN "R" ELSE "E0")
              \o MulAdd("C1", s, IF w = "key" THEN "D2" ELSE "D", t0, "E1")
              \o << OpPf(op, "pj", "issuance_blinded", "blind issuance", <<"g", "h", "X0", "X1", "D", "P", "T00", "T01", "C0", "C1", "E0", "E1">>,
                         <<"x0t", IF w = "x0" THEN "r" ELSE "x0", x1, s, b, t0>>),
                    ChkPf("pfv", "pj", "issuance_blinded", "blind issuance", <<"g", "h", "X0", "X1", "D", "P", "T00", "T01", "C0", "C1", "E0", "E1">>),
                    ChkPf("pfvref", "pj", "issuance_blinded", "blind issuance", <<"g", "h", "X0", "X1", "D", "P", "T00", "T01", "C0", "C1", "E0", "E1">>),
                    Op("p_mul", "x0P", <<IF w = "nox0" THEN "z" ELSE "x0", "P">>), Op("p_add", "C1x", <<"C1", "x0P">>), Op("enc_raw", "EQ", <<"C0", "C1x">>) >>)
    /\ UNCHANGED <<done, user, attr>>

\* The issuer computed what it should have.
Good == issuer \in {"honest", "x0", "noblinding", "norandom"} \/ (attr = "zero" /\ issuer \in {"x1", "t0"})
\* The user decrypts, and uses what came of it.
Decrypt == << Op("dec", "Q", <<"k", "EQ">>), Op("dec", "Q2", <<"k2", "EQ">>), Op("tag_raw", "t", <<"P", "Q">>), Op("tag_raw", "tx", <<"P", "Q2">>),
              Chk("macv", <<"sk", "t", "m">>), Chk("macv", <<"sk", "t", "m2">>), Chk("macv", <<"sk", "tx", "m">>) >>
\* The issuer proves the MAC as it would have had it issued it openly.
Y(i) == "y" \o ToString(i)
Reveal == << Op("s_mul", "mx", <<"m", "x1">>),
             OpPf("pf", "py", "issuance_revealed", Issuance, <<"P", "Q", "X0", "g", "h", "X1">>, <<"x0", "x1", "x0t", "mx">>) >>
          \o [i \in 1..5 |-> OpN("pf_get", Y(i), <<"py">>, i - 1)]
          \o << OpF("msg_new", "FI", <<"X0", "P", "Q", "m", Y(1), Y(2), Y(3), Y(4), Y(5)>>, "iss"), Op("ausr_new", "u", <<"p", "pk">>), Chk("afin", <<"u", "FI">>) >>
          \o IF Good THEN << OpN("ashow", "v", <<"u">>, 1), OpN("aver", "w", <<"i", "v">>, 1) >> ELSE <<>>
Finish == /\ phase = "finish" /\ ~done /\ done' = TRUE /\ phase' = "done"
          /\ DoAll(Decrypt \o Reveal)
          /\ UNCHANGED <<user, issuer, attr>>
Next == Setup \/ Request \/ Answer \/ Finish
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Which(op) == SelectSeq(hist, LAMBDA x : x.e.op = op)
Proof(k) == SelectSeq(hist, LAMBDA x : x.e.op \in {"pfv", "pfvref"} /\ x.e.kind = k)
\* The proofs convince if and only if all was as it should be.  (The proof says nothing of the nonce, of adding x0 times P,
\* of t0 being b times x1, or of s being random.)
RequestProven == done => \A i \in 1..2 : Proof("attributes_blinded")[i].ok = (user = "honest")
AnswerProven == done => \A i \in 1..2 : Proof("issuance_blinded")[i].ok = (issuer \in {"honest", "nox0", "t0", "noblinding", "norandom"})
\* The MAC is one on the attribute, with this key pair alone, exactly when the issuer computed it so.
BlindMac == done => <<Which("macv")[1].ok, Which("macv")[2].ok, Which("macv")[3].ok>> = <<Good, FALSE, FALSE>>
\* and it makes a credential as good as any other
Shown == done => /\ Which("afin")[1].ok = Good
                 /\ (Good => Which("ashow")[1].ok /\ Which("aver")[1].ok)
=============================================================================
