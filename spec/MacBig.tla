------------------------------- MODULE MacBig -------------------------------
(* Algebraic MACs on messages of very many elements, and the messages that *)
(* differ in one place, in particular where an index or a length no longer *)
(* fits into a byte, or half of one.                                       *)
EXTENDS Driver

CONSTANTS Sizes

VARIABLES n, same
vars == <<st, ops, hist, done, n, same>>

E(i) == "e" \o ToString(i)
Msg == [i \in 1..n |-> E(i)]
Places == {i \in {1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, n - 1, n} : i >= 1 /\ i <= n}
Setup == <<OpNew("s_rand", "r"), OpConst("z", 0), OpN("sk_new", "k", <<>>, n), OpN("sk_new", "l", <<>>, n)>>
         \o [i \in 1..n |-> OpNew("s_rand", E(i))]
         \o <<Op("mac", "t", <<"k">> \o Msg), Op("rerand", "t2", <<"t">>), Op("sav", "k2", <<"k">>)>>
Init == \E m \in Sizes : n = m /\ Begin(Setup) /\ same = <<>>

Others == {[Msg EXCEPT ![i] = x] : i \in Places, x \in {"r", "z"}}
          \cup {[Msg EXCEPT ![p[1]] = E(p[2]), ![p[2]] = E(p[1])] : p \in {p \in Places \X Places : p[1] < p[2]}}
          \cup {SubSeq(Msg, 1, i) : i \in Places \ {n}} \cup {SubSeq(Msg, i, n) : i \in Places \ {1}}
          \cup {Append(Msg, "z"), Append(Msg, "r"), [i \in 1..n |-> E(n + 1 - i)]}
Check ==
    /\ ~done /\ done' = TRUE /\ UNCHANGED n
    /\ \E ms \in {SetToSeq(PickSome(IF n > 200 THEN 5 ELSE 12, Others))} :
       /\ DoAll(<<Chk("macv", <<"k", "t">> \o Msg), Chk("macv", <<"k2", "t2">> \o Msg), Chk("macv", <<"l", "t">> \o Msg)>>
                \o [i \in 1..Len(ms) |-> Chk("macv", <<"k", "t">> \o ms[i])])
       /\ same' = <<TRUE, TRUE, FALSE>> \o [i \in 1..Len(ms) |-> FALSE]
Next == Check
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Checks == SelectSeq(hist, LAMBDA h : h.e.op = "macv")
\* C06
ExactlyTheSame == done => \A i \in 1..Len(same) : Checks[i].ok = same[i]
=============================================================================
