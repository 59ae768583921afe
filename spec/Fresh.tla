-------------------------------- MODULE Fresh --------------------------------
(* The randomness in presentations, issuances, roster entries and tags.    *)
(*                                                                         *)
(* Here the tester knows everything there is to know: the issuer's key,    *)
(* the discrete logarithm k of h, and a credential whose tag has nonce G.  *)
(* So every random number that a party draws can be computed from what it  *)
(* sends, as a multiple of h.  All of these have to be different and       *)
(* unrelated, in all of the messages ever sent.                            *)
EXTENDS Driver

CONSTANTS MaxSteps,     \* messages in a behaviour
          Kinds2,       \* what is done
          MaxPairs,     \* how many pairs of random numbers are compared
          Single        \* look for multiples of h up to this (if it is above a million: for all of them, and their differences)

VARIABLES rands,        \* registers of the random numbers, each times h
          nums          \* those of the numbers n1, ... that are used
vars == <<st, ops, hist, done, rands, nums>>

D1 == <<1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4>>
D2 == <<4, 9, 1, 7, 1, 2, 3, 4, 5, 6, 7, 8>>

Get(o, m, f) == OpF("msg_get", o, <<m>>, f)
Setup == <<
    OpNew("s_rand", "k"), OpNew("p_g", "g"), Op("p_mul", "h", <<"k", "g">>), Op("prm_raw", "p1", <<"h">>),
    OpN("sk_new", "k1", <<>>, 1), Op("iss_raw", "i1", <<"p1", "k1">>), Op("iss_pk", "q1", <<"i1">>), OpN("pk_x", "X", <<"q1">>, 0),
    OpN("sk_x", "x0", <<"k1">>, 0), OpN("sk_x", "x1", <<"k1">>, 1),
    OpNum("n1", D1), Op("phone", "f1", <<"n1">>), OpNum("n2", D2), Op("phone", "f2", <<"n2">>),
    Op("usr_new", "u1", <<"p1", "q1", "n1">>), Op("usr_new", "u2", <<"p1", "q1", "n1">>), Op("ausr_new", "u3", <<"p1", "q1">>),
    \* the credential with nonce G, from the issuer's key but by the tester's hand
    Op("s_mul", "fx1", <<"f1", "x1">>), Op("s_add", "fe", <<"x0", "fx1">>), Op("p_mul", "FQ", <<"fe", "g">>),
    OpNew("s_rand", "fxt"), Op("p_mul", "fk1", <<"x0", "g">>), Op("p_mul", "fk2", <<"fxt", "h">>), Op("p_add", "FK", <<"fk1", "fk2">>),
    OpPf("pfref", "fp", "issuance_revealed", "AEONFLUX ISSUANCE", <<"g", "FQ", "FK", "g", "h", "X">>, <<"x0", "x1", "fxt", "fx1">>),
    OpN("pf_get", "fc", <<"fp">>, 0), OpN("pf_get", "fs1", <<"fp">>, 1), OpN("pf_get", "fs2", <<"fp">>, 2), OpN("pf_get", "fs3", <<"fp">>, 3),
    OpN("pf_get", "fs4", <<"fp">>, 4), OpF("msg_new", "F", <<"FK", "g", "FQ", "f1", "fc", "fs1", "fs2", "fs3", "fs4">>, "iss"),
    Chk("fin", <<"u1", "F">>), Chk("fin", <<"u2", "F">>), Chk("afin", <<"u3", "F">>),
    Op("ros", "e1", <<"n1", "p1">>), Op("ros_o", "o1", <<"e1">>), Op("p_mul", "e1r", <<"o1", "h">>),
    Op("ros", "e2", <<"n1", "p1">>), Op("ros_o", "o2", <<"e2">>), Op("p_mul", "e2r", <<"o2", "h">>),
    Op("p_mul", "mh", <<"f1", "h">>), Op("p_mul", "eh", <<"fe", "h">>), Op("p_mul", "x0h", <<"x0", "h">>), Op("p_mul", "x1h", <<"x1", "h">>),
    Op("p_mul", "fxtr", <<"fxt", "h">>), Op("p_mul", "kh", <<"k", "h">>) >>

Init == Begin(Setup) /\ rands = <<"e1r", "e2r", "x0h", "x1h">> /\ nums = {"n1", "n2"}

\* o := s*h - c*Y, the blinding factor of a response s for secret y, where Y = y*h, times h
Blinding(o, s, c, Y) == <<Op("p_mul", o \o "a", <<s, "h">>), Op("p_mul", o \o "b", <<c, Y>>), Op("p_sub", o, <<o \o "a", o \o "b">>)>>

Done2(es, rs) == DoAll(es) /\ rands' = rands \o rs /\ UNCHANGED <<done, nums>>

ShowIt(u, e, o) ==
    LET m == Name("m") r(x) == m \o x
        apres == u = "u3"
        common == <<Get(r("P"), m, "P"), Get(r("CQ"), m, "CQ"), Get(r("Cm"), m, "Cm"), Get(r("c"), m, "c"), Get(r("s1"), m, "s1"),
                    Get(r("s2"), m, "s2"), Get(r("s3"), m, "s3"),
                    Op("p_mul", r("t"), <<"k", r("P")>>), Op("p_mul", r("mP"), <<"f1", r("P")>>), Op("p_sub", r("z"), <<r("Cm"), r("mP")>>),
                    Op("p_mul", r("Q"), <<"fe", r("P")>>), Op("p_sub", r("zq"), <<r("CQ"), r("Q")>>), Op("p_neg", r("mzq"), <<r("zq")>>)>>
                  \o Blinding(r("b1"), r("s1"), r("c"), "mh") \o Blinding(r("b2"), r("s2"), r("c"), r("z")) \o Blinding(r("b3"), r("s3"), r("c"), r("mzq"))
        ros == <<Get(r("rc"), m, "rc"), Get(r("r1"), m, "r1"), Get(r("r2"), m, "r2"), Get(r("r3"), m, "r3")>>
                  \o Blinding(r("d1"), r("r1"), r("rc"), "mh") \o Blinding(r("d2"), r("r2"), r("rc"), r("z"))
                  \o Blinding(r("d3"), r("r3"), r("rc"), o)
        base == <<r("t"), r("z"), r("zq"), r("b1"), r("b2"), r("b3")>>
    IN  IF apres THEN Done2(<<OpN("ashow", m, <<u>>, 1)>> \o common, base)
        ELSE Done2(<<Op("show", m, <<u, e>>)>> \o common \o ros, base \o <<r("d1"), r("d2"), r("d3")>>)

\* o := s - c*y
BlindingS(o, s, c, y) == <<Op("s_mul", o \o "a", <<c, y>>), Op("s_sub", o, <<s, o \o "a">>)>>
Wide(n, reg(_)) == <<ChkN("s_wide", [i \in 1..n |-> reg(i)], 120)>>       \* between them, the bits vary

\* n presentations, of which only the three values that it is about are looked at, and those blinding factors that are known
ShowMany(u, e, n) ==
    LET m(i) == Name("m") \o "x" \o ToString(i)
        o == IF e = "e1" THEN "o1" ELSE "o2" IN
    Done2(FoldLeft(LAMBDA a, i : a \o <<Op("show", m(i), <<u, e>>), Get(m(i) \o "P", m(i), "P"), Get(m(i) \o "CQ", m(i), "CQ"), Get(m(i) \o "Cm", m(i), "Cm"),
                        Op("p_mul", m(i) \o "t", <<"k", m(i) \o "P">>), Op("p_mul", m(i) \o "mP", <<"f1", m(i) \o "P">>),
                        Op("p_sub", m(i) \o "z", <<m(i) \o "Cm", m(i) \o "mP">>),
                        Op("p_mul", m(i) \o "Q", <<"fe", m(i) \o "P">>), Op("p_sub", m(i) \o "zq", <<m(i) \o "CQ", m(i) \o "Q">>),
                        Get(m(i) \o "c", m(i), "c"), Get(m(i) \o "s1", m(i), "s1"), Get(m(i) \o "rc", m(i), "rc"), Get(m(i) \o "r1", m(i), "r1"), Get(m(i) \o "r3", m(i), "r3")>>
                        \o BlindingS(m(i) \o "b1", m(i) \o "s1", m(i) \o "c", "f1") \o BlindingS(m(i) \o "d1", m(i) \o "r1", m(i) \o "rc", "f1")
                        \o BlindingS(m(i) \o "d3", m(i) \o "r3", m(i) \o "rc", o), <<>>, [i \in 1..n |-> i])
          \o Wide(n, LAMBDA i : m(i) \o "b1") \o Wide(n, LAMBDA i : m(i) \o "d1") \o Wide(n, LAMBDA i : m(i) \o "d3"), <<>>)
RosMany(n, k) ==
    LET e(i) == Name("e") \o "x" \o ToString(i) IN
    Done2(FoldLeft(LAMBDA a, i : a \o <<Op("ros", e(i), <<n, "p1">>), Op("ros_o", e(i) \o "o", <<e(i)>>), Op("mac", e(i) \o "t", <<"k1", "f1">>),
                        Op("issue", e(i) \o "i", <<"i1", n>>), Get(e(i) \o "c", e(i) \o "i", "c"), Get(e(i) \o "s1", e(i) \o "i", "s1"), Get(e(i) \o "s2", e(i) \o "i", "s2"),
                        Op("eg_gen", e(i) \o "k", <<>>), Op("eg_sk", e(i) \o "s", <<e(i) \o "k">>),
                        OpN("sk_new", e(i) \o "y", <<>>, 1), OpN("sk_x", e(i) \o "y0", <<e(i) \o "y">>, 0), OpN("sk_x", e(i) \o "y1", <<e(i) \o "y">>, 1)>>
                        \o BlindingS(e(i) \o "b1", e(i) \o "s1", e(i) \o "c", "x0") \o BlindingS(e(i) \o "b2", e(i) \o "s2", e(i) \o "c", "x1"),
                   <<>>, [i \in 1..k |-> i])
          \o Wide(k, LAMBDA i : e(i) \o "o") \o Wide(k, LAMBDA i : e(i) \o "b1") \o Wide(k, LAMBDA i : e(i) \o "b2") \o Wide(k, LAMBDA i : e(i) \o "s")
          \o Wide(k, LAMBDA i : e(i) \o "y0") \o Wide(k, LAMBDA i : e(i) \o "y1"), <<>>)

IssueIt(n) ==
    LET m == Name("m") r(x) == m \o x
        es == <<Op("issue", m, <<"i1", n>>), Get(r("P"), m, "P"), Get(r("K"), m, "Cx0"), Get(r("c"), m, "c"), Get(r("s1"), m, "s1"), Get(r("s2"), m, "s2"),
                Get(r("s3"), m, "s3"), Get(r("s4"), m, "s4"), Get(r("m"), m, "m"),
                Op("p_mul", r("t"), <<"k", r("P")>>), Op("p_mul", r("x0g"), <<"x0", "g">>), Op("p_sub", r("xt"), <<r("K"), r("x0g")>>),
                Op("p_mul", r("mx"), <<r("m"), "x1h">>)>>
              \o Blinding(r("b1"), r("s1"), r("c"), "x0h") \o Blinding(r("b2"), r("s2"), r("c"), "x1h")
              \o Blinding(r("b3"), r("s3"), r("c"), r("xt")) \o Blinding(r("b4"), r("s4"), r("c"), r("mx"))
    IN  Done2(es, <<r("t"), r("xt"), r("b1"), r("b2"), r("b3"), r("b4")>>)

Entry(n) ==
    LET e == Name("e") IN
    Done2(<<Op("ros", e, <<n, "p1">>), Op("ros_o", e \o "o", <<e>>), Op("p_mul", e \o "r", <<e \o "o", "h">>),
            Op("ros_C", e \o "C", <<e>>), Op("p_mul", e \o "m", <<IF n = "n1" THEN "f1" ELSE "f2", "h">>), Op("p_sub", e \o "c", <<e \o "C", e \o "m">>),
            Op("p_mul", e \o "q", <<"k", e \o "c">>)>>, <<e \o "r">>)       \* e.q is o*k*G = o*h: the same
MakeTag ==
    LET t == Name("t") IN
    Done2(<<Op("mac", t, <<"k1", "f1">>), Op("tag_P", t \o "P", <<t>>), Op("p_mul", t \o "r", <<"k", t \o "P">>),
            Op("tag_raw", t \o "g", <<"g", "FQ">>), Op("rerand", t \o "2", <<t \o "g">>), Op("tag_P", t \o "2P", <<t \o "2">>),
            Op("p_mul", t \o "s", <<"k", t \o "2P">>)>>, <<t \o "r", t \o "s">>)
KeyPair ==
    LET t == Name("k") IN
    Done2(<<Op("eg_gen", t, <<>>), Op("eg_sk", t \o "s", <<t>>), Op("p_mul", t \o "r", <<t \o "s", "h">>),
            OpN("sk_new", t \o "k", <<>>, 1), OpN("sk_x", t \o "0", <<t \o "k">>, 0), OpN("sk_x", t \o "1", <<t \o "k">>, 1),
            Op("p_mul", t \o "0r", <<t \o "0", "h">>), Op("p_mul", t \o "1r", <<t \o "1", "h">>)>>, <<t \o "r", t \o "0r", t \o "1r">>)
Reload(u) == Done2(<<Op("sav", u, <<u>>)>>, <<>>)

Steps == Len(SelectSeq(ops, LAMBDA e : e.op \in {"show", "ashow", "issue", "ros", "mac", "eg_gen", "sav"})) - 2
More == ~done /\ Steps < MaxSteps
OneStep ==
    \E x \in Pick(Kinds2) :
       CASE x = "show"  -> \E u \in Pick({"u1", "u2"}), e \in Pick({"e1", "e2"}) : ShowIt(u, e, e \o "r")
         [] x = "ashow" -> ShowIt("u3", "", "")
         [] x = "issue" -> \E n \in Pick(nums) : IssueIt(n)
         [] x = "entry" -> \E n \in Pick(nums) : Entry(n)
         [] x = "tag"   -> MakeTag
         [] x = "key"   -> KeyPair
         [] x = "sav"   -> \E u \in Pick({"u1", "u2", "u3", "i1", "e1"}) : Reload(u)
         [] x = "many"  -> \E u \in Pick({"u1", "u2"}), e \in Pick({"e1", "e2"}) : ShowMany(u, e, 100)
         [] x = "rosmany" -> \E n \in Pick(nums) : RosMany(n, 70)

Compare(a, b) == LET d == a \o "-" \o b s == a \o "+" \o b IN
    <<ChkN("p_small", <<a, b>>, 8), ChkN("p_small", <<b, a>>, 8), Op("p_sub", d, <<a, b>>), Op("p_add", s, <<a, b>>),
      ChkN("p_small", <<d, "h">>, 100), ChkN("p_small", <<s, "h">>, 100), ChkN("p_small", <<d, "kh">>, 4), ChkN("p_small", <<s, "kh">>, 4)>>
Deep == Single > 10^6
Finish ==
    /\ ~done /\ (Sim => ~More)
    /\ \E ps \in {SetToSeq(PickSome(MaxPairs, {x \in (1..Len(rands)) \X (1..Len(rands)) : x[1] < x[2]}))},
          ss \in {SetToSeq(PickSome(IF Deep THEN 100 ELSE 8, 1..Len(rands)))},
          ds \in {IF Deep THEN SetToSeq(PickSome(30, {x \in (1..Len(rands)) \X (1..Len(rands)) : x[1] < x[2]})) ELSE <<>>} :
          DoAll(FoldLeft(LAMBDA a, x : a \o Compare(rands[x[1]], rands[x[2]]), <<>>, ps)
                \o [i \in 1..Len(ss) |-> ChkN("p_small", <<rands[ss[i]], "h">>, Single)]
                \o [i \in 1..Len(ss) |-> ChkN("p_small", <<rands[ss[i]], "mh">>, 8)]
                \o FoldLeft(LAMBDA a, x : LET d == rands[x[1]] \o "~" \o rands[x[2]] IN
                        a \o <<Op("p_sub", d, <<rands[x[1]], rands[x[2]]>>), ChkN("p_small", <<d, "h">>, Single)>>, <<>>, ds))
    /\ done' = TRUE /\ UNCHANGED <<rands, nums>>

Next == (More /\ OneStep) \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C05: the random numbers are all different, and none is a simple function of another.
Val(r) == st.env[r].v
Distinct == \A i, j \in 1..Len(rands) : i # j => Val(rands[i]) # Val(rands[j])
Unrelated == \A i \in 1..Len(hist) : hist[i].e.op = "p_small" => ~hist[i].ok
Varied == \A i \in 1..Len(hist) : hist[i].e.op = "s_wide" => hist[i].ok
\* Each of them has a random symbol that occurs in no other one.
Own(i) == \E s \in UNION {{m[k] : k \in 1..Len(m)} : m \in DOMAIN Val(rands[i])} :
             \A j \in 1..Len(rands) : j # i => \A m \in DOMAIN Val(rands[j]) : \A k \in 1..Len(m) : m[k] # s
Independent == done => \A i \in 1..Len(rands) : Own(i)
Works == \A i \in 1..Len(hist) : hist[i].e.op \in {"fin", "afin", "show", "ashow", "issue"} => hist[i].ok
=============================================================================
