------------------------------- MODULE Commit -------------------------------
(* Pedersen commitments, committed phone numbers and roster entries: they  *)
(* are made, mixed, added and altered, and opened with everything that     *)
(* there is.  `what' says, without any algebra, what each commitment is to.*)
EXTENDS Driver

CONSTANTS MaxSteps, MaxChecks

VARIABLES what, ros, nums
vars == <<st, ops, hist, done, what, ros, nums>>

Related == {"ag", "-ah", "g", "h"}     \* values that are multiples of a basepoint
Pts == {"m1", "m2", "O"} \cup (IF Sim THEN Related ELSE {})      \* values, as points
Ss  == {"a", "b", "z"}                 \* nonces
Bs  == {"g", "h", "h2", "O"}           \* basepoints
Prms == {"p1", "p2"}

Base == << OpNew("p_rand", "m1"), OpNew("p_rand", "m2"), OpNew("p_zero", "O"), OpNew("s_rand", "a"), OpNew("s_rand", "b"), OpConst("z", 0), OpConst("one", 1),
           OpNew("prm_new", "p1"), OpNew("prm_new", "p2"), Op("prm_g", "g", <<"p1">>), Op("prm_h", "h", <<"p1">>), Op("prm_h", "h2", <<"p2">>),
           Op("p_mul", "ag", <<"a", "g">>), Op("p_mul", "ah", <<"a", "h">>), Op("p_neg", "-ah", <<"ah">>) >>
RandomDigits(n) == [i \in 1..n |-> RandomElement(0..9)]
Near(d) == {x \in {d, Append(d, 0), <<0>> \o d, Append(d, 7), [d EXCEPT ![Len(d)] = (@ + 1) % 10], [d EXCEPT ![1] = (@ + 1) % 10], Tail(d)} : x # <<>> /\ Len(x) <= 26}
D1 == <<1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4>>
D2 == <<1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4, 0>>
LongD == [i \in 1..27 |-> i % 10]
Init == st = Init0 /\ hist = <<>> /\ ops = <<>> /\ done = FALSE /\ what = [x \in {} |-> 0] /\ ros = [x \in {} |-> 0] /\ nums = [x \in {} |-> 0]

Setup ==
    /\ ops = <<>>
    /\ \E d1 \in (IF Sim THEN {RandomDigits(RandomElement(1..26))} ELSE {D1}) : \E d2 \in (IF Sim THEN {RandomElement(Near(d1))} ELSE {D2}) :
          /\ DoAll(Base \o <<OpNum("n1", d1), OpNum("n2", d2), OpNum("n3", LongD)>>)
          /\ nums' = ("n1" :> d1) @@ ("n2" :> d2)
    /\ UNCHANGED <<done, what, ros>>

(* What a commitment is to: [v: value, n: nonce, b: basepoint] for Pedersen*)
(* ones, [num, n, g (times nonce), h (times number)] for phone numbers.    *)
Ped(v, n, b) ==
    LET c == Name("c") IN
    /\ Do(Op("ped", c, <<v, n, b>>))
    /\ what' = (c :> [t |-> "ped", v |-> v, n |-> n, b |-> b]) @@ what
    /\ UNCHANGED <<done, ros, nums>>
Cpn(m, n, g, h) ==
    LET c == Name("c") IN
    /\ Do(Op("cpn", c, <<m, n, g, h>>))
    /\ what' = (c :> [t |-> "cpn", num |-> nums[m], n |-> n, g |-> g, h |-> h]) @@ what
    /\ UNCHANGED <<done, ros, nums>>
Other(es, c) == /\ DoAll(es) /\ what' = (c :> [t |-> "other"]) @@ what /\ UNCHANGED <<done, ros, nums>>
Plain(c) == what[c].t # "cpn" \/ what[c].h # "O"
AddUp(c, d) == LET x == Name("c") IN Other(<<Op("p_add", x, <<c, d>>)>>, x)
Shift(c, p) == LET x == Name("c") IN Other(<<Op("p_add", x, <<c, p>>)>>, x)
Negate(c) == LET x == Name("c") IN Other(<<Op("p_neg", x, <<c>>)>>, x)
Entry(m, p) ==
    LET e == Name("e") IN
    /\ DoAll(<<Op("ros", e, <<m, p>>), Op("ros_C", e \o "C", <<e>>), Op("ros_o", e \o "o", <<e>>)>>)
    /\ ros' = (e :> [num |-> nums[m], prm |-> p, C |-> e, o |-> e]) @@ ros
    /\ UNCHANGED <<done, what, nums>>
MixEntry(e, f) ==
    LET x == Name("e") IN
    /\ DoAll(<<Op("ros_raw", x, <<e \o "C", f \o "o">>), Op("ros_C", x \o "C", <<x>>), Op("ros_o", x \o "o", <<x>>)>>)
    /\ ros' = (x :> [ros[e] EXCEPT !.o = ros[f].o]) @@ ros
    /\ UNCHANGED <<done, what, nums>>
\* Another commitment, or another opening, altered how so ever
AlterEntry(e, how) ==
    LET x == Name("e")
        es == CASE how = "C+g" -> <<Op("p_add", x \o "n", <<e \o "C", "g">>), Op("ros_raw", x, <<x \o "n", e \o "o">>)>>
                [] how = "C+h" -> <<Op("p_add", x \o "n", <<e \o "C", "h">>), Op("ros_raw", x, <<x \o "n", e \o "o">>)>>
                [] how = "-C"  -> <<Op("p_neg", x \o "n", <<e \o "C">>), Op("ros_raw", x, <<x \o "n", e \o "o">>)>>
                [] how = "O"   -> <<Op("ros_raw", x, <<"O", e \o "o">>)>>
                [] how = "o+1" -> <<Op("s_add", x \o "n", <<e \o "o", "one">>), Op("ros_raw", x, <<e \o "C", x \o "n">>)>>
                [] how = "-o"  -> <<Op("s_neg", x \o "n", <<e \o "o">>), Op("ros_raw", x, <<e \o "C", x \o "n">>)>>
                [] how = "0"   -> <<Op("ros_raw", x, <<e \o "C", "z">>)>>
                [] how = "1"   -> <<Op("ros_raw", x, <<e \o "C", "one">>)>>
    IN  /\ DoAll(es \o <<Op("ros_C", x \o "C", <<x>>), Op("ros_o", x \o "o", <<x>>)>>)
        /\ ros' = (x :> IF how \in {"C+g", "C+h", "-C", "O"} THEN [ros[e] EXCEPT !.C = x \o "C"] ELSE [ros[e] EXCEPT !.o = x \o "o"]) @@ ros
        /\ UNCHANGED <<done, what, nums>>
SaveEntry(e) == Do(Op("sav", e, <<e>>)) /\ UNCHANGED <<done, what, ros, nums>>
\* Numbers that are too long are refused.
TooLongs == DoAll(<<Op("ros", "x1", <<"n3", "p1">>), Op("cpn", "x2", <<"n3", "a", "g", "h">>)>>) /\ UNCHANGED <<done, what, ros, nums>>

Steps == Len(SelectSeq(ops, LAMBDA e : e.op \in {"ped", "cpn", "ros", "ros_raw", "sav"})) + Cardinality({c \in DOMAIN what : what[c].t = "other"})
More == ops # <<>> /\ ~done /\ Steps < MaxSteps
Cs == DOMAIN what
Es == DOMAIN ros
Genuine == {e \in Es : ros[e].C = e /\ ros[e].o = e}

Chks ==
    LET P == PickSome(MaxChecks, {<<"pedopen", c, v, n, b>> : c \in Cs, v \in Pts, n \in Ss, b \in Bs})
        N == PickSome(MaxChecks, {<<"cpnopen", c, m, n, g, h>> : c \in {c \in Cs : what[c].t # "ped"}, m \in {"n1", "n2"}, n \in Ss, g \in {"g", "h", "h2"}, h \in {"g", "h", "h2"}})
        R == PickSome(MaxChecks, {<<"rosopen", e, m, p>> : e \in Es, m \in {"n1", "n2", "n3"}, p \in Prms})
        X == {<<"pedopen", c, what[c].v, what[c].n, what[c].b>> : c \in {c \in Cs : what[c].t = "ped"}}
        Y == {<<"cpnopen", c, CHOOSE m \in DOMAIN nums : nums[m] = what[c].num, what[c].n, what[c].g, what[c].h>> : c \in {c \in Cs : what[c].t = "cpn"}}
    IN  SetToSeq(P) \o SetToSeq(N) \o SetToSeq(R) \o SetToSeq(X) \o SetToSeq(Y)
Finish ==
    /\ ops # <<>> /\ ~done /\ (Sim => ~More)
    /\ Cs \cup Es # {}
    /\ \E cs \in {Chks} : DoAll([i \in 1..Len(cs) |-> Chk(cs[i][1], Tail(cs[i]))])
    /\ done' = TRUE
    /\ UNCHANGED <<what, ros, nums>>

Next ==
    \/ Setup
    \/ /\ More
       /\ \/ \E v \in Pick(Pts), n \in Pick(Ss), b \in Pick(Bs) : Ped(v, n, b)
          \/ \E m \in Pick({"n1", "n2"}), n \in Pick(Ss), x \in Pick({<<"g", "h">>, <<"h", "g">>, <<"g", "h2">>, <<"h", "h2">>}) : Cpn(m, n, x[1], x[2])
          \/ \E c, d \in Pick(Cs) : AddUp(c, d)
          \/ \E c \in Pick(Cs), p \in Pick({"m1", "g", "h"}) : Shift(c, p)
          \/ \E c \in Pick(Cs) : Negate(c)
          \/ \E m \in Pick({"n1", "n2"}), p \in Pick(Prms) : Entry(m, p)
          \/ \E e \in Pick(Es), f \in Pick(Es) : MixEntry(e, f)
          \/ \E e \in Pick(Genuine), how \in Pick({"C+g", "C+h", "-C", "O", "o+1", "-o", "0", "1"}) : AlterEntry(e, how)
          \/ \E e \in Pick(Es) : SaveEntry(e)
          \/ (Sim /\ TooLongs)
    \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Val(r) == st.env[r].v
\* The openings of Pedersen commitments that are one and the same: the nonce or the basepoint may be zero.
SameVN(v, n, b, v2, n2, b2) ==
    LET t(nn, bb) == IF nn = "z" \/ bb = "O" THEN <<>> ELSE <<nn, bb>> IN v = v2 /\ t(n, b) = t(n2, b2)
PedOpens(h) ==
    LET w == what[h.e.a[1]] IN (w.t = "ped" /\ {w.v, h.e.a[2]} \cap Related = {}) => h.ok = SameVN(w.v, w.n, w.b, h.e.a[2], h.e.a[3], h.e.a[4])
CpnOpens(h) ==
    LET w == what[h.e.a[1]] m == h.e.a[2] IN w.t = "cpn" =>
        h.ok = /\ m \in DOMAIN nums /\ nums[m] = w.num /\ w.h = h.e.a[5]
               /\ IF w.n = "z" THEN h.e.a[3] = "z" ELSE w.n = h.e.a[3] /\ w.g = h.e.a[4]
RosOpens(h) ==
    LET w == ros[h.e.a[1]] m == h.e.a[2] IN
        h.ok = (w.C = w.o /\ m \in DOMAIN nums /\ nums[m] = w.num /\ h.e.a[3] = w.prm)
(* C09 *)
Opens == \A i \in 1..Len(hist) : LET h == hist[i] IN
            CASE h.e.op = "pedopen" -> PedOpens(h) [] h.e.op = "cpnopen" -> CpnOpens(h) [] h.e.op = "rosopen" -> RosOpens(h) [] OTHER -> TRUE
Afresh == \A e, f \in Genuine : e # f => Val(e \o "C") # Val(f \o "C")
=============================================================================
