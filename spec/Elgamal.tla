------------------------------- MODULE Elgamal -------------------------------
(* ElGamal encryption: messages are encrypted, ciphertexts added, mixed,   *)
(* and decrypted with every key.  `is' says which messages were added up.  *)
EXTENDS Driver

CONSTANTS MaxSteps
VARIABLES is, keys
vars == <<st, ops, hist, done, is, keys>>

Ms == {"m1", "m2", "z", "one"}
Es == {"e1", "e2", "z", "one"}
\* In simulation, the key's secret as message and as nonce, too, and one number as both
MsMore == IF Sim THEN Ms \cup {"r", "e1"} ELSE Ms
EsMore == IF Sim THEN Es \cup {"r", "m1"} ELSE Es
RandomDigits(n) == [i \in 1..n |-> RandomElement(0..9)]
Base(d) == << OpNew("s_rand", "m1"), OpNew("s_rand", "m2"), OpConst("z", 0), OpConst("one", 1), OpNew("s_rand", "e1"), OpNew("s_rand", "e2"), OpNew("s_rand", "r"),
              OpNew("p_g", "g"), OpNew("p_rand", "R"), OpNew("p_zero", "O"), OpNum("n1", d), Op("phone", "f1", <<"n1">>),
              OpNew("eg_gen", "k1"), OpNew("eg_gen", "k2"), Op("eg_sec", "k3", <<"r">>), Op("eg_sec", "k4", <<"one">>), Op("eg_sec", "k5", <<"z">>),
              Op("eg_sk", "sk1", <<"k1">>), Op("eg_pk", "pk1", <<"k1">>), Op("p_mul", "pk1x", <<"sk1", "g">>), Op("sav", "k6", <<"k1">>) >>
Init == st = Init0 /\ hist = <<>> /\ ops = <<>> /\ done = FALSE /\ is = [x \in {} |-> 0]
        /\ keys = ("k1" :> 1) @@ ("k2" :> 2) @@ ("k3" :> 3) @@ ("k4" :> 4) @@ ("k5" :> 5) @@ ("k6" :> 1)
Setup == ops = <<>> /\ (\E d \in (IF Sim THEN {RandomDigits(RandomElement(1..26))} ELSE {<<4, 9, 1, 7>>}) : DoAll(Base(d))) /\ UNCHANGED <<done, is, keys>>

\* A ciphertext [key, m: bag of messages (as a function to counts)], or key = 0 if it is none
Plus(b, c) == [x \in DOMAIN b |-> b[x] + c[x]]
One(m) == [x \in Ms \cup {"f1", "r", "e1"} |-> IF x = m /\ m # "z" THEN 1 ELSE 0]
Put2(c, x) == is' = (c :> x) @@ is /\ UNCHANGED <<done, keys>>
Enc(k, m, e, how) ==
    LET c == Name("c") n == Name("n") IN
    /\ DoAll(<<OpN("enc", c, <<k, m, e>>, how)>>) /\ Put2(c, [key |-> keys[k], m |-> One(m), n |-> <<e>>])
EncPhone(k, e) == LET c == Name("c") IN Do(Op("eg_phone", c, <<k, "n1", e>>)) /\ Put2(c, [key |-> keys[k], m |-> One("f1"), n |-> <<e>>])
Add(a, b) == LET c == Name("c") IN Do(Op("enc_add", c, <<a, b>>))
             /\ Put2(c, [key |-> IF is[a].key = is[b].key THEN is[a].key ELSE 0, m |-> Plus(is[a].m, is[b].m), n |-> is[a].n \o is[b].n])
Raw(x, y) == LET c == Name("c") IN Do(Op("enc_raw", c, <<x, y>>)) /\ Put2(c, [key |-> 0, m |-> One("z"), n |-> <<>>])

Steps == Len(SelectSeq(ops, LAMBDA e : e.op \in {"enc", "eg_phone", "enc_add", "enc_raw"}))
More == ops # <<>> /\ ~done /\ Steps < MaxSteps
Keys == DOMAIN keys
Cs == DOMAIN is
\* What the sum of messages is, times g, computed by the world
SumOps(o, b) ==
    <<OpNew("p_zero", o)>> \o FoldLeft(LAMBDA a, m : a \o FoldLeft(LAMBDA a2, i : a2 \o <<Op("p_mul", o \o "t", <<m, "g">>), Op("p_add", o, <<o, o \o "t">>)>>, <<>>, [i \in 1..b[m] |-> i]),
                                        <<>>, SetToSeq(DOMAIN b))
Finish ==
    /\ ~done /\ Cs # {} /\ (Sim => ~More)
    /\ \E x \in {SetToSeq(PickSome(24, Cs \X Keys))} :
          DoAll(FoldLeft(LAMBDA a, c : a \o SumOps("sum" \o c, is[c].m), <<>>, SetToSeq(Cs))
                \o [i \in 1..Len(x) |-> Op("dec", "d" \o x[i][1] \o x[i][2], <<x[i][2], x[i][1]>>)])
    /\ done' = TRUE /\ UNCHANGED <<is, keys>>
Next ==
    \/ Setup
    \/ More /\ \/ \E k \in Pick(Keys), m \in Pick(MsMore), e \in Pick(EsMore), how \in Pick({0, 1}) : (Sim \/ k \in {"k1", "k2", "k4", "k5"}) /\ Enc(k, m, e, how)
               \/ \E k \in Pick(Keys), e \in Pick(Es) : EncPhone(k, e)
               \/ \E a, b \in Pick(Cs) : Add(a, b)
               \/ \E x, y \in Pick({"g", "O", "R"}) : Raw(x, y)
    \/ Finish
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* C10 *)
Val(r) == st.env[r].v
Decrypts == done => \A c \in Cs, k \in Keys :
    LET d == "d" \o c \o k IN
    (d \in DOMAIN st.env /\ is[c].key # 0 /\ keys[k] = is[c].key) => Val(d) = Val("sum" \o c)
\* Another key does not decrypt, if there is randomness in the ciphertext at all.
OtherKey == done => \A c \in Cs, k \in Keys :
    LET d == "d" \o c \o k IN
    (d \in DOMAIN st.env /\ is[c].key # 0 /\ keys[k] # is[c].key /\ \E i \in 1..Len(is[c].n) : is[c].n[i] # "z") => Val(d) # Val("sum" \o c)
PublicKey == ops # <<>> => Val("pk1") = Val("pk1x")
=============================================================================
