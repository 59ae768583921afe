-------------------------------- MODULE Arith --------------------------------
(* What operators and conversions make of values, written in all the ways  *)
(* there are, and which objects are equal.  Objects are built from         *)
(* recipes; `of' holds the recipes, and objects are equal if these are.    *)
EXTENDS Driver

CONSTANTS Part         \* subset of {"laws", "equal"}
VARIABLES phase, of
vars == <<st, ops, hist, done, phase, of>>

Ss == {"a", "b", "z", "one", "minus"}
Ps == {"g", "h", "R", "O"}
Base == << OpNew("s_rand", "a"), OpNew("s_rand", "b"), OpConst("z", 0), OpConst("one", 1), Op("s_neg", "minus", <<"one">>),
           OpNew("p_g", "g"), OpNew("p_rand", "h"), OpNew("p_rand", "R"), OpNew("p_zero", "O") >>
\* Lengths at the ends of a hash function's blocks, and ones that do not fit into a byte
LongStrings == {63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 257, 512, 513, 1000, 3000}
RandomDigits(n) == [i \in 1..n |-> RandomElement(0..9)]
RandomString(n) == <<256>> \o [i \in 1..n |-> RandomElement(32..126)]
Init == st = Init0 /\ hist = <<>> /\ ops = <<>> /\ done = FALSE /\ phase = "setup" /\ of = [x \in {} |-> 0]
Setup == phase = "setup" /\ DoAll(Base) /\ (\E x \in Part : phase' = x) /\ UNCHANGED <<done, of>>

Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
(***************************************************************************)
(* Laws: every way to multiply is distributive, and so on                  *)
(***************************************************************************)
Reg(w, i) == w \o ToString(i)
Laws(s, t, p, q) ==
    << Op("eph_neg", "ns", <<s>>), Op("s_add", "st", <<s, t>>), Op("p_add", "pq", <<p, q>>), Op("p_mul", "sp", <<s, p>>) >>
    \o Flatten([i \in 1..10 |-> << OpN("eph_mul", Reg("x", i), <<s, p>>, i - 1), OpN("eph_mul", Reg("y", i), <<t, p>>, i - 1), OpN("eph_mul", Reg("n", i), <<"ns", p>>, i - 1),
                                   OpN("eph_mul", Reg("w", i), <<"st", p>>, i - 1), OpN("eph_mul", Reg("q", i), <<s, q>>, i - 1), OpN("eph_mul", Reg("v", i), <<s, "pq">>, i - 1) >>])
    \o << OpN("com_mul", "c1", <<s, p>>, 0), OpN("com_mul", "c2", <<s, p>>, 1), Op("com_sub", "d1", <<p, q>>), Op("com_sub", "d2", <<p, p>>), Op("com_sub", "d3", <<"pq", q>>),
          Op("prm_raw32", "p32", <<"h">>), Op("prm_raw", "p0", <<"h">>), Chk("eq", <<"p32", "p0">>) >>
DoLaws == /\ phase = "laws" /\ phase' = "more"
          /\ \E s, t \in Pick(Ss), p, q \in Pick(Ps) : DoAll(Laws(s, t, p, q)) /\ of' = [x \in {"s", "t", "p", "q"} |-> IF x = "s" THEN s ELSE IF x = "t" THEN t ELSE IF x = "p" THEN p ELSE q]
          /\ UNCHANGED done
\* Conversions: elements of messages of n elements, strings, numbers
Conversions(v, str, str2, d) ==
    [i \in 1..Len(v) |-> OpN("s_msg", Reg("el", i), v, i - 1)]
    \o << [op |-> "s_str", o |-> "s1", d |-> str], [op |-> "s_str", o |-> "s2", d |-> str2], [op |-> "s_str", o |-> "s3", d |-> str], OpNum("num1", d),
          Op("s_phone", "f1", <<"num1">>), Op("phone", "f2", <<"num1">>), OpN("nonces", "e", <<>>, Len(v) + 1), OpN("nonces", "e2", <<>>, Len(v) + 1), OpNew("eg_gen", "k"),
          Op("eg_vec", "ev1", <<"k", "num1", "a">>), Op("eg_phone", "ev2", <<"k", "num1", "a">>), Chk("eq", <<"ev1", "ev2">>) >>
NearStr(s) == {Append(s, 0), Append(s, 32)} \cup (IF Len(s) = 1 THEN {} ELSE {[s EXCEPT ![Len(s)] = (@ + 1) % 128], [s EXCEPT ![2] = (@ + 1) % 128]})
DoMore == /\ phase = "more" /\ phase' = "end" /\ done' = TRUE
          /\ \E n \in (IF Sim THEN {RandomElement(IF RandomElement(1..2) = 1 THEN 0..60 ELSE LongStrings)} ELSE {2}) : \E k \in (IF Sim THEN {RandomElement(1..9 \cup {17, 33, 65})} ELSE {3}) :
             \E s \in (IF Sim THEN {RandomString(n)} ELSE {<<256, 97, 98>>}) : \E s2 \in Pick(NearStr(s)) :
             \E v \in (IF Sim THEN {[i \in 1..k |-> RandomElement(Ss)]} ELSE {<<"a", "b", "a">>}) : \E d \in (IF Sim THEN {RandomDigits(RandomElement(1..26))} ELSE {<<0, 3>>}) :
                DoAll(Conversions(v, s, s2, d))
          /\ UNCHANGED of
(***************************************************************************)
(* Equality                                                                *)
(***************************************************************************)
\* A world with everything, and variants of everything
World == << OpNum("n1", <<1, 4, 1, 5>>), OpNum("n2", <<1, 4, 1, 5, 0>>), OpNew("prm_new", "p1"), OpNew("prm_new", "p2"), OpN("sk_new", "sk1", <<>>, 1), OpN("sk_new", "sk2", <<>>, 1),
            Op("iss_raw", "i1", <<"p1", "sk1">>), Op("iss_raw", "i2", <<"p1", "sk2">>), Op("iss_pk", "pk1", <<"i1">>), Op("iss_pk", "pk2", <<"i2">>),
            OpNew("eg_gen", "k1"), OpNew("eg_gen", "k2"), Op("ros", "r", <<"n1", "p1">>), Op("issue", "is1", <<"i1", "n1">>), Op("issue", "is2", <<"i1", "n1">>),
            Op("phone", "f1", <<"n1">>) >>
Names == {"P", "S", "Tag", "Prm", "Enc", "Kp", "Pk", "Usr", "Ausr", "Cred", "iss", "apres", "pres", "ver", "Pf"}
Make(o, t, r) == CASE t = "Tag" -> <<Op("tag_raw", o, r)>> [] t = "Enc" -> <<Op("enc_raw", o, r)>> [] t = "Kp" -> <<Op("eg_raw", o, r)>> [] t = "Prm" -> <<Op("prm_raw", o, r)>>
                   [] t = "Usr" -> <<Op("usr_new", o, r)>> [] t = "Ausr" -> <<Op("ausr_new", o, r)>>
                   [] t = "Cred" -> <<Op("usr_new", o, <<"p1", "pk1", "n1">>), Chk("fin", <<o>> \o r)>>
Recipes(t) == CASE t = "Tag" -> Ps \X Ps [] t = "Enc" -> Ps \X Ps [] t = "Kp" -> Ss \X Ps [] t = "Prm" -> {<<"h">>, <<"R">>}
                [] t = "Usr" -> {<<p, k, n>> \o x : p \in {"p1", "p2"}, k \in {"pk1", "pk2"}, n \in {"n1", "n2"}, x \in {<<>>, <<"k1">>, <<"k2">>}}
                [] t = "Ausr" -> {<<p, k>> \o x : p \in {"p1", "p2"}, k \in {"pk1", "pk2"}, x \in {<<>>, <<"k1">>, <<"k2">>}}
                [] t = "Cred" -> {<<"is1">>, <<"is2">>, <<>>}
Pairs == {"Tag", "Enc", "Kp", "Prm", "Usr", "Ausr", "Cred"}
Compare(t, r1, r2) == Make("x", t, r1) \o Make("y", t, r2) \o << Chk("eq", <<"x", "y">>) >>
\* Messages and proofs, with one field replaced
Source(t) == CASE t = "iss" -> <<Op("issue", "M", <<"i1", "n1">>)>>
               [] t = "apres" -> <<Op("ausr_new", "u", <<"p1", "pk1">>), Chk("afin", <<"u", "is1">>), OpN("ashow", "M", <<"u">>, 1)>>
               [] t = "pres" -> <<Op("usr_new", "u", <<"p1", "pk1", "n1">>), Chk("fin", <<"u", "is1">>), Op("show", "M", <<"u", "r">>)>>
               [] t = "ver" -> <<Op("usr_new", "u", <<"p1", "pk1", "n1">>), Chk("fin", <<"u", "is1">>), Op("show", "M0", <<"u", "r">>), Op("ver", "M", <<"i1", "M0">>)>>
Replace(t, f, v, w) == Source(t) \o << OpF("msg_set", "x", <<"M", v>>, f), OpF("msg_set", "y", <<"M", w>>, f), Chk("eq", <<"x", "y">>), Chk("eq", <<"M", "x">>), Chk("eq", <<"x", "x">>) >>
KindsOf == {"issuance_revealed", "attributes_blinded", "issuance_blinded", "valid_credential", "committed_values_equal"}
ProofPair(k, i, v, w) ==
    << [op |-> "pf_raw", o |-> "M", kind |-> k, a |-> [j \in 1..(NSecrets(k) + 1) |-> IF j % 2 = 0 THEN "a" ELSE "b"]],
       OpN("pf_set", "x", <<"M", v>>, i), OpN("pf_set", "y", <<"M", w>>, i), [op |-> "eq", a |-> <<"x", "y">>, kind |-> k], [op |-> "eq", a |-> <<"x", "x">>, kind |-> k] >>
Expect(b) == of' = ("same" :> b) @@ of
DoEqual ==
    /\ phase = "equal" /\ phase' = "end" /\ done' = TRUE
    /\ \/ \E x, y \in Ps : DoAll(<<Chk("eq", <<x, y>>)>>) /\ Expect(x = y)
       \/ \E x, y \in Ss : DoAll(<<Chk("eq", <<x, y>>)>>) /\ Expect(x = y)
       \/ DoAll(World \o <<Chk("eq", <<"pk1", "pk2">>)>>) /\ Expect(FALSE)
       \/ DoAll(World \o <<Op("iss_pk", "pk3", <<"i1">>), Chk("eq", <<"pk1", "pk3">>)>>) /\ Expect(TRUE)
       \/ \E t \in Pick(Pairs) : \E r1, r2 \in Pick(Recipes(t)) : DoAll(World \o Compare(t, r1, r2)) /\ Expect(r1 = r2)
       \/ \E t \in Pick({"iss", "apres", "pres", "ver"}) : \E i \in Pick(1..Len(Layout[t])) :
            \E v, w \in Pick(IF Layout[t][i][2] = "S" THEN Ss ELSE Ps) : DoAll(World \o Replace(t, Layout[t][i][1], v, w)) /\ Expect(v = w)
       \/ \E k \in Pick(KindsOf) : \E i \in Pick(0..NSecrets(k)), v, w \in Pick(Ss) : DoAll(ProofPair(k, i, v, w)) /\ Expect(v = w)
Next == Setup \/ DoLaws \/ DoMore \/ DoEqual
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Val(r) == st.env[r].v
Sum2(x, y) == PAdd(Val(x), Val(y))
\* C21: what is multiplied in whichever way is linear in both arguments, and does what the group does.
Linear == (done /\ "s" \in DOMAIN of) => \A i \in 1..10 :
    /\ Val(Reg("x", i)) = Val("sp")
    /\ Sum2(Reg("x", i), Reg("y", i)) = Val(Reg("w", i))
    /\ Sum2(Reg("x", i), Reg("q", i)) = Val(Reg("v", i))
    /\ Sum2(Reg("x", i), Reg("n", i)) = PZero
Commitments2 == (done /\ "s" \in DOMAIN of) =>
    /\ Val("c1") = Val("sp") /\ Val("c2") = Val("sp")
    /\ Val("d2") = PZero /\ Val("d3") = Val(of["p"]) /\ PAdd(Val("d1"), Val(of["q"])) = Val(of["p"])
Converted == (done /\ "s" \in DOMAIN of) => Val("f1") = Val("f2") /\ Val("s1") = Val("s3") /\ Val("s1") # Val("s2") /\ Val("s1") # Val("f1")
\* Objects are equal if and only if they were made of the same.
Eqs == SelectSeq(hist, LAMBDA x : x.e.op = "eq" /\ (x.e.a = <<"x", "y">> \/ x.e.a[1] \in Ss \cup Ps \cup {"pk1"}))
Equal == (done /\ "same" \in DOMAIN of) => \A i \in 1..Len(Eqs) : Eqs[i].ok = of["same"]
=============================================================================
