------------------------------ MODULE MacLong ------------------------------
(* Algebraic MACs on messages of any length: a tag for a message of n      *)
(* elements, and every message and every key that differs from it in one   *)
(* or two places.                                                          *)
EXTENDS Driver

CONSTANTS MaxLen,       \* longest message
          Longer        \* in simulation: further lengths

VARIABLES n, special,   \* the length, and an element (of the message or the key) that is zero, one, or equals the first
          same          \* for every check: is it for the same message, under the same key?
vars == <<st, ops, hist, done, n, special, same>>

Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
E(i) == "e" \o ToString(i)
X(i) == "x" \o ToString(i)
Y(j) == "y" \o ToString(j)
Elements == [i \in 1..n |-> E(i)]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
With(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

Setup ==
    <<OpNew("s_rand", "r"), OpConst("z", 0), OpConst("o", 1), OpN("sk_new", "k", <<>>, n)>>
    \o [i \in 1..n |-> IF special[1] = i /\ special[2] \in {0, 1, -1} THEN OpConst(E(i), special[2]) ELSE OpNew("s_rand", E(i))]
    \o Flatten([i \in 1..n |-> <<OpN("sk_x", X(i), <<"k">>, i)>>]) \o <<OpN("sk_x", X(0), <<"k">>, 0)>>
    \o <<Op("mac", "t", <<"k">> \o Elements), Op("rerand", "t2", <<"t">>), Op("sav", "t3", <<"t2">>), Op("sav", "k2", <<"k">>)>>
    \* keys under which the tag of the message is 0, 1 or -1 times its nonce
    \o Flatten([j \in 1..3 |->
         <<OpConst(Y(j), <<0, 1, -1>>[j])>>
         \o Flatten([i \in 1..n |-> <<Op("s_mul", Y(j) \o "m", <<X(i), E(i)>>), Op("s_sub", Y(j), <<Y(j), Y(j) \o "m">>)>>])
         \o <<Op("sk_raw", "ke" \o ToString(j), <<Y(j)>> \o [i \in 1..n |-> X(i)]), Op("mac", "te" \o ToString(j), <<"ke" \o ToString(j)>> \o Elements)>>])
    \o <<Op("tag_P", "tP", <<"t">>), Op("p_neg", "-tP", <<"tP">>), OpNew("p_zero", "O"), Op("tag_raw", "tr1", <<"tP", "O">>),
         Op("tag_raw", "tr2", <<"tP", "tP">>), Op("tag_raw", "tr3", <<"tP", "-tP">>), Op("tag_raw", "tr4", <<"O", "O">>)>>
    \* elements that are a little different
    \o Flatten([i \in 1..n |-> <<Op("s_neg", E(i) \o "-", <<E(i)>>), Op("s_add", E(i) \o "+", <<E(i), "r">>), Op("s_sub", E(i) \o "s", <<E(i), "r">>),
                                Op("s_add", E(i) \o "+1", <<E(i), "o">>)>>])

Msg == Elements
OtherMsgs ==
    {[Msg EXCEPT ![i] = x] : i \in 1..n, x \in {"r", "z", "o"}}
    \cup {[Msg EXCEPT ![i] = E(i) \o x] : i \in 1..n, x \in {"-", "+", "+1"}}
    \cup {[Msg EXCEPT ![p[1]] = E(p[2])] : p \in (1..n) \X (1..n)}
    \cup {[Msg EXCEPT ![p[1]] = E(p[2]), ![p[2]] = E(p[1])] : p \in (1..n) \X (1..n)}
    \cup {[Msg EXCEPT ![p[1]] = E(p[1]) \o "+", ![p[2]] = E(p[2]) \o "s"] : p \in {p \in (1..n) \X (1..n) : p[1] # p[2]}}
    \cup {Without(Msg, i) : i \in 1..n} \cup {With(Msg, i, x) : i \in 1..(n + 1), x \in {"r", "z"}}
    \cup {SubSeq(Msg, 1, i) : i \in 0..n} \cup {SubSeq(Msg, i, n) : i \in 1..n}
    \cup {[i \in 1..n |-> E(n + 1 - i)], [i \in 1..n |-> E(1 + (i % n))], [i \in 1..n |-> "z"], Msg \o Msg, Msg \o <<"z", "z">>}
Key == [i \in 1..(n + 1) |-> X(i - 1)]
OtherKeys ==
    {[Key EXCEPT ![i] = x] : i \in 1..(n + 1), x \in {"r", "z"}}
    \cup {[Key EXCEPT ![p[1]] = Key[p[2]], ![p[2]] = Key[p[1]]] : p \in (1..(n + 1)) \X (1..(n + 1))}

\* Messages and keys that are much too long: their lengths agree in the lowest bits
Pads == IF n <= 3 /\ special[1] = 0 THEN <<8, 16, 32, 64, 128, 255, 256, 512>> ELSE <<>>
Fill(x, k) == [i \in 1..k |-> x]
TooLong == Flatten([j \in 1..Len(Pads) |->
    LET k == "kp" \o ToString(j) IN
    <<Op("sk_raw", k, Key \o Fill("z", Pads[j])), Chk("macv", <<"k", "t">> \o Msg \o Fill("z", Pads[j])), Chk("macv", <<k, "t">> \o Msg),
      Chk("macv", <<k, "t">> \o Msg \o Fill("r", Pads[j])), Op("mac", "tw", <<"k">> \o Msg \o Fill("r", Pads[j])), Op("mac", "tw", <<k>> \o Msg)>>])

\* Elements that are zero or one leave room for other keys that agree on this one message.
SameKey(k, l, m) ==
    \/ k = l
    \/ special[1] # 0 /\ LET by(x) == PAdd(x[1], PSum([i \in 1..Len(m) |-> PMul(x[i + 1], m[i])])) IN by(k) = by(l)
Val(s, r) == s.env[r].v
Specials(m) == {<<i, v>> : i \in 1..m, v \in {0, 1, -1}}
Init == \E m \in (IF Sim THEN 5..MaxLen \cup Longer ELSE 0..MaxLen) : n = m /\ special \in PickSome(2, Specials(m)) \cup {<<0, 0>>}
        /\ Begin(Setup) /\ same = <<>>

Check ==
    /\ ~done /\ done' = TRUE /\ UNCHANGED <<n, special>>
    /\ \E ms \in {SetToSeq(PickSome(150, OtherMsgs))}, ks \in {SetToSeq(PickSome(60, OtherKeys))} :
       LET kn(i) == "k." \o ToString(i)
           values(m) == [i \in 1..Len(m) |-> Val(st, m[i])]
           keys == [i \in 1..Len(ks) |-> Op("sk_raw", kn(i), ks[i])]
           rs == SubSeq(ms, 1, Min({12, Len(ms)}))
           special1 == [j \in 1..3 |-> [e |-> <<Chk("macv", <<"ke" \o ToString(j), "te" \o ToString(j)>> \o Msg), Chk("macv", <<"ke" \o ToString(j), "tr" \o ToString(j)>> \o Msg),
                                                Chk("macv", <<"ke" \o ToString(j), "tr4">> \o Msg), Chk("macv", <<"ke" \o ToString(j), "tr" \o ToString(1 + (j % 3))>> \o Msg),
                                                Chk("macv", <<"k", "te" \o ToString(j)>> \o Msg), Chk("macv", <<"ke" \o ToString(j), "t">> \o Msg)>>
                                              \o [i \in 1..Len(rs) |-> Chk("macv", <<"ke" \o ToString(j), "te" \o ToString(j)>> \o rs[i])],
                                        w |-> <<TRUE, TRUE, FALSE, FALSE, FALSE, FALSE>> \o [i \in 1..Len(rs) |-> values(rs[i]) = values(Msg)]]]
           wrong == {m \in {ms[i] : i \in 1..Len(ms)} : Len(m) # n}
       IN  /\ DoAll(keys
                 \o [i \in 1..3 |-> Chk("macv", <<"k", <<"t", "t2", "t3">>[i]>> \o Msg)] \o <<Chk("macv", <<"k2", "t">> \o Msg)>>
                 \o [i \in 1..Len(ms) |-> Chk("macv", <<"k", "t">> \o ms[i])]
                 \o [i \in 1..Len(ks) |-> Chk("macv", <<kn(i), "t2">> \o Msg)]
                 \o Flatten([j \in 1..3 |-> special1[j].e])
                 \o LET w == SetToSeq(wrong) IN [i \in 1..Len(w) |-> Op("mac", "tw", <<"k">> \o w[i])]
                 \o TooLong)
           /\ same' = <<TRUE, TRUE, TRUE, TRUE>> \o [i \in 1..Len(ms) |-> values(ms[i]) = values(Msg)]
                      \o [i \in 1..Len(ks) |-> SameKey(values(ks[i]), values(Key), values(Msg))]
                      \o Flatten([j \in 1..3 |-> special1[j].w])
                      \o Flatten([j \in 1..Len(Pads) |-> <<FALSE, FALSE, TRUE>>])
Next == Check
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Checks == SelectSeq(hist, LAMBDA h : h.e.op = "macv")
\* C06
ExactlyTheSame == done => \A i \in 1..Len(same) : Checks[i].ok = same[i]
NoOtherLength == \A i \in 1..Len(hist) : hist[i].e.op = "mac" => hist[i].ok = (Len(hist[i].e.a) = n + 1 /\ hist[i].e.a[1] \notin {"kp" \o ToString(j) : j \in 1..Len(Pads)})
=============================================================================
