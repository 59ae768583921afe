------------------------------ MODULE Machine ------------------------------
(* What every operation of the library does, over symbolic values.         *)
(*                                                                         *)
(* The state of the machine has registers (env), the number of symbols     *)
(* used (n), the random oracle (ro: what has been asked of it, and the     *)
(* symbol it answered), and the scalars of phone numbers (num).            *)
(*                                                                         *)
(* Exec(st, e) is the outcome of operation e in state st: whether it       *)
(* succeeds, the state afterwards, and the values that can be observed.    *)
(* It is used by the models (Protocol, ...), which explore what sequences  *)
(* of operations can lead to, and by MachineTrace, which decides whether   *)
(* what the real library did is what the specification says.               *)
EXTENDS Algebra, Nipk, Bags

CONSTANTS
    \* Deviations from the specification, to show that the models detect them; {} is the specification.
    Mutation

Mut(m) == m \in Mutation

Init0 == [env |-> [x \in {} |-> 0], n |-> 0, ro |-> [x \in {} |-> 0], num |-> [x \in {} |-> 0]]

(***************************************************************************)
(* Values                                                                  *)
(***************************************************************************)
VS(p) == [k |-> "S", v |-> p]
VP(p) == [k |-> "P", v |-> p]
VNum(d) == [k |-> "Num", d |-> d]
VPrm(g, h) == [k |-> "Prm", g |-> g, h |-> h]
VSk(x) == [k |-> "Sk", x |-> x]                          \* <<x0, x1, ...>>
VPk(X) == [k |-> "Pk", X |-> X]                          \* <<X1, ...>>
VTag(P, Q) == [k |-> "Tag", P |-> P, Q |-> Q]
VRos(C, o) == [k |-> "Ros", C |-> C, o |-> o]
VKp(s, p) == [k |-> "Kp", s |-> s, p |-> p]
VEnc(c, e) == [k |-> "Enc", c |-> c, e |-> e]
VPf(kind, x) == [k |-> "Pf", kind |-> kind, x |-> x]     \* <<c, s1, ...>>
VIss(g, h, x, X) == [k |-> "Iss", g |-> g, h |-> h, x |-> x, X |-> X]
\* key: <<>> or <<s, p>>; cred: <<>> or <<P, Q, m>>.  m is the number of a Signal user.
VUsr(m, g, h, X, key, cred) == [k |-> "Usr", m |-> m, g |-> g, h |-> h, X |-> X, key |-> key, cred |-> cred]
VAusr(g, h, X, key, cred) == [k |-> "Ausr", g |-> g, h |-> h, X |-> X, key |-> key, cred |-> cred]
\* A message, by its fields in the order of its layout; bad, if its bytes are no message of its type.
VMsg(t, f, bad) == [k |-> "Msg", t |-> t, f |-> f, bad |-> bad]

Layout == [
    iss   |-> << <<"Cx0","P">>, <<"P","P">>, <<"Q","P">>, <<"m","S">>, <<"c","S">>, <<"s1","S">>, <<"s2","S">>, <<"s3","S">>, <<"s4","S">> >>,
    apres |-> << <<"CQ","P">>, <<"P","P">>, <<"Cm","P">>, <<"c","S">>, <<"s1","S">>, <<"s2","S">>, <<"s3","S">> >>,
    pres  |-> << <<"E","P">>, <<"CQ","P">>, <<"P","P">>, <<"Cm","P">>, <<"c","S">>, <<"s1","S">>, <<"s2","S">>, <<"s3","S">>,
                 <<"rc","S">>, <<"r1","S">>, <<"r2","S">>, <<"r3","S">> >>,
    ver   |-> << <<"E","P">>, <<"CQ","P">>, <<"P","P">>, <<"Cm","P">>, <<"c","S">>, <<"s1","S">>, <<"s2","S">>, <<"s3","S">>,
                 <<"rc","S">>, <<"r1","S">>, <<"r2","S">>, <<"r3","S">> >> ]

FieldIx == [t \in DOMAIN Layout |->
    [f \in {Layout[t][i][1] : i \in 1..Len(Layout[t])} |-> CHOOSE i \in 1..Len(Layout[t]) : Layout[t][i][1] = f]]

Fld(msg, f) == msg.f[FieldIx[msg.t][f]]

\* What can be seen of a value: a sequence of <<"S" or "P", term>>.
Tg(t, s) == [i \in 1..Len(s) |-> <<t, s[i]>>]
UsrObs(u) == <<<<"P", u.g>>, <<"P", u.h>>>> \o Tg("P", u.X)
             \o (IF u.key = <<>> THEN <<>> ELSE <<<<"S", u.key[1]>>, <<"P", u.key[2]>>>>)
             \o (IF u.cred = <<>> THEN <<>> ELSE <<<<"P", u.cred[1]>>, <<"P", u.cred[2]>>, <<"S", u.cred[3]>>>>)
Obs(v) ==
    CASE v.k = "S"   -> << <<"S", v.v>> >>
      [] v.k = "P"   -> << <<"P", v.v>> >>
      [] v.k = "Num" -> <<>>
      [] v.k = "Prm" -> << <<"P", v.g>>, <<"P", v.h>> >>
      [] v.k = "Sk"  -> Tg("S", v.x)
      [] v.k = "Pk"  -> Tg("P", v.X)
      [] v.k = "Tag" -> << <<"P", v.P>>, <<"P", v.Q>> >>
      [] v.k = "Ros" -> << <<"P", v.C>>, <<"S", v.o>> >>
      [] v.k = "Kp"  -> << <<"S", v.s>>, <<"P", v.p>> >>
      [] v.k = "Enc" -> << <<"P", v.c>>, <<"P", v.e>> >>
      [] v.k = "Pf"  -> Tg("S", v.x)
      [] v.k = "Iss" -> << <<"P", v.g>>, <<"P", v.h>> >> \o Tg("P", v.X) \o Tg("S", v.x)
      [] v.k = "Usr" -> << <<"S", v.m>> >> \o UsrObs(v)
      [] v.k = "Ausr" -> UsrObs(v)
      [] v.k = "Msg" -> [i \in 1..Len(v.f) |-> <<Layout[v.t][i][2], v.f[i]>>]

(***************************************************************************)
(* Outcomes                                                                *)
(***************************************************************************)
Put(st, o, v) == [st EXCEPT !.env = (o :> v) @@ @]
Yes(st, e, v) == [st |-> Put(st, e.o, v), ok |-> TRUE, obs |-> Obs(v)]
YesU(st)      == [st |-> st, ok |-> TRUE, obs |-> <<>>]
No(st)        == [st |-> st, ok |-> FALSE, obs |-> <<>>]
If(st, b)     == IF b THEN YesU(st) ELSE No(st)
Sym(st, i)    == PVar(st.n + i)                           \* the i-th new symbol
Use(st, k)    == [st EXCEPT !.n = @ + k]

\* Phone numbers: one symbol for every sequence of digits.
WithNum(st, d) == IF d \in DOMAIN st.num THEN st ELSE [st EXCEPT !.n = @ + 1, !.num = (d :> (st.n + 1)) @@ @]
NumOf(st, d) == PVar(st.num[d])
MaxDigits == 26

(***************************************************************************)
(* Zero-knowledge proofs, with the challenge from a random oracle          *)
(***************************************************************************)
Commitments(kind, pubs, c, s) ==                          \* as a verifier recomputes them
    [e \in 1..Len(Equations[kind]) |->
        LET q == Equations[kind][e] IN
        PSub(PSum([t \in 1..Len(q[2]) |-> PMul(s[q[2][t][1]], pubs[q[2][t][2]])]), PMul(c, pubs[q[1]]))]

\* Returns the state and the proof <<c, s1, ...>>.
Prove(st, ctx, kind, pubs, secs) ==
    LET k == NSecrets(kind)
        r == [i \in 1..k |-> Sym(st, i)]
        key == <<ctx, kind, pubs, Commitments(kind, pubs, PZero, r)>>
        c == IF key \in DOMAIN st.ro THEN st.ro[key] ELSE st.n + k + 1
    IN  [st |-> [st EXCEPT !.n = @ + k + 1, !.ro = (key :> c) @@ @],
         pf |-> <<PVar(c)>> \o [i \in 1..k |-> PAdd(PMul(PVar(c), secs[i]), r[i])]]

Holds(st, ctx, kind, pubs, pf) ==
    LET key == <<ctx, kind, pubs, Commitments(kind, pubs, pf[1], Tail(pf))>>
    IN  /\ key \in DOMAIN st.ro
        /\ pf[1] = PVar(st.ro[key])

(***************************************************************************)
(* Algebraic MACs                                                          *)
(***************************************************************************)
Exponent(x, m) == PAdd(x[1], PSum([i \in 1..Len(m) |-> PMul(x[i + 1], m[i])]))
MacHolds(x, P, Q, m) ==
    /\ Len(x) = Len(m) + 1
    /\ (P # PZero \/ Mut("MacIdentity"))
    /\ Q = PMul(Exponent(x, m), P)

(***************************************************************************)
(* The protocol                                                            *)
(***************************************************************************)
Issuance == "AEONFLUX ISSUANCE"
Show == "AEONFLUX SHOW"
Membership == "SIGNAL GROUP MEMBERSHIP"

\* Has the issuer a key for this many attributes?
CanIssue(i, n) == i.X # <<>> /\ Len(i.x) = n + 1 /\ n > 0

\* An issuance of attribute m.
IssueTo(st, e, i, m) ==
    LET P == PMul(Sym(st, 1), G)
        Q == PMul(Exponent(i.x, <<m>>), P)
        xt == Sym(st, 2)
        Cx0 == PAdd(PMul(i.x[1], i.g), PMul(xt, i.h))
        pr == Prove(Use(st, 2), Issuance, "issuance_revealed", <<P, Q, Cx0, i.g, i.h, i.X[1]>>,
                    <<i.x[1], i.x[2], xt, PMul(m, i.x[2])>>)
    IN  Yes(pr.st, e, VMsg("iss", <<Cx0, P, Q, m>> \o pr.pf, FALSE))

IssuanceProved(st, u, msg) ==
    /\ u.X # <<>>
    /\ Holds(st, Issuance, "issuance_revealed",
             <<Fld(msg, "P"), Fld(msg, "Q"), Fld(msg, "Cx0"), u.g, u.h, u.X[1]>>, SubSeq(msg.f, 5, 9))
IssuanceHolds(st, u, msg) ==
    /\ ~msg.bad
    /\ msg.t = "iss"
    /\ u.k = "Ausr" \/ Fld(msg, "m") = u.m \/ Mut("FinishAnyNumber")
    /\ IssuanceProved(st, u, msg)

\* A presentation: the state, and the fields CQ, P, Cm, c, s1, s2, s3, and z.
ShowCred(st, u) ==
    LET t == IF Mut("ShowNoRerandomize") THEN PConst(1) ELSE Sym(st, 1)
        zQ == IF Mut("ShowFixedZQ") THEN PVar(1) ELSE Sym(st, 2)
        z == IF Mut("ShowSameNonce") THEN zQ ELSE Sym(st, 3)
        P == PMul(t, u.cred[1])
        CQ == PAdd(PMul(t, u.cred[2]), PMul(zQ, u.h))
        m == u.cred[3]
        Cm == PAdd(PMul(m, P), PMul(z, u.h))
        V == PSub(PMul(z, u.X[1]), PMul(zQ, u.h))
        pr == Prove(Use(st, 3), Show, "valid_credential", <<u.g, u.h, u.X[1], P, V, Cm>>, <<m, z, PNeg(zQ)>>)
    IN  [st |-> pr.st, f |-> <<CQ, P, Cm>> \o pr.pf, z |-> z]

PresentationHolds(st, i, CQ, P, Cm, pf) ==
    /\ P # PZero \/ Mut("VerifyIdentity")
    /\ LET V == PSub(PAdd(PMul(i.x[1], P), PMul(i.x[2], Cm)), CQ)
       IN  Holds(st, Show, "valid_credential", <<i.g, i.h, i.X[1], P, V, Cm>>, pf)

MembershipHolds(st, i, E, P, Cm, pf) ==
    Holds(st, Membership, "committed_values_equal", <<i.g, i.h, P, Cm, E>>, pf)

(***************************************************************************)
(* Saving and restoring                                                    *)
(***************************************************************************)
Degenerate(g, h) == g = PZero \/ h = PZero \/ g = h
NoneIfZero(s) == IF \A i \in 1..Len(s) : s[i] = PZero THEN <<>> ELSE s
Restored(v) == IF v.k \in {"Usr", "Ausr"} THEN [v EXCEPT !.key = NoneIfZero(@), !.cred = NoneIfZero(@)]
               ELSE IF v.k = "Iss" THEN v ELSE v
Storable(v) ==
    CASE v.k = "Prm" -> ~Degenerate(v.g, v.h)
      [] v.k = "Pk"  -> Len(v.X) > 0
      [] v.k = "Iss" -> ~Degenerate(v.g, v.h) /\ Len(v.X) > 0
      [] v.k \in {"Usr", "Ausr"} -> ~Degenerate(v.g, v.h) /\ Len(v.X) = 1
      [] v.k = "Msg" -> ~v.bad
      [] v.k \in {"Sk", "Tag", "Ros", "Kp", "Num"} -> TRUE

(***************************************************************************)
(* Is point a = k*b for a k of small absolute value?                       *)
(***************************************************************************)
SmallMultiple(a, b, bound) ==
    \/ a = PZero
    \/ /\ b # PZero
       /\ DOMAIN a = DOMAIN b
       /\ LET m == CHOOSE m \in DOMAIN a : TRUE
          IN  /\ a[m] % b[m] = 0
              /\ a = [x \in DOMAIN b |-> b[x] * (a[m] \div b[m])]

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
Arg(e, i) == e.a[i]
HasO(e) == "o" \in DOMAIN e
ArgsOf(e) == IF "a" \in DOMAIN e THEN e.a ELSE <<>>

\* Like a variable that is assigned, an output register loses its old value whatever happens.
Cleared(st, e) ==
    IF HasO(e) /\ e.o \in DOMAIN st.env /\ ~(\E i \in 1..Len(ArgsOf(e)) : e.a[i] = e.o)
    THEN [st EXCEPT !.env = [x \in DOMAIN @ \ {e.o} |-> @[x]]]
    ELSE st

Exec(st0, e) ==
    LET st == Cleared(st0, e)
        R(i) == st.env[e.a[i]]
        V(i) == st.env[e.a[i]].v
        NA == Len(ArgsOf(e))
        Vs(i) == [j \in 1..(NA - i + 1) |-> V(i + j - 1)]            \* the values of arguments i, i+1, ...
        Digits(i) == R(i).d
        TooLong(i) == Len(Digits(i)) > MaxDigits
        stn(i) == WithNum(st, Digits(i))
        Num(i) == NumOf(stn(i), Digits(i))
        op == e.op
    IN
    CASE
    \* The world
         op = "s_const" -> Yes(st, e, VS(PConst(e.n)))
      [] op = "s_rand"  -> Yes(Use(st, 1), e, VS(Sym(st, 1)))
      [] op = "s_add"   -> Yes(st, e, VS(PAdd(V(1), V(2))))
      [] op = "s_sub"   -> Yes(st, e, VS(PSub(V(1), V(2))))
      [] op = "s_mul"   -> Yes(st, e, VS(PMul(V(1), V(2))))
      [] op = "s_neg"   -> Yes(st, e, VS(PNeg(V(1))))
      [] op = "s_inv"   -> IF V(1) = PZero THEN No(st)
                           ELSE IF IsMonomial(V(1)) THEN Yes(st, e, VS(PInv(V(1))))
                           ELSE Assert(FALSE, <<"only products have inverses here", e>>)
      [] op = "p_g"     -> Yes(st, e, VP(G))
      [] op = "p_rand"  -> Yes(Use(st, 2), e, VP(PVar(-(st.n + 2))))
      [] op = "p_zero"  -> Yes(st, e, VP(PZero))
      [] op = "p_mul"   -> Yes(st, e, VP(PMul(V(1), V(2))))
      [] op = "p_add"   -> Yes(st, e, VP(PAdd(V(1), V(2))))
      [] op = "p_sub"   -> Yes(st, e, VP(PSub(V(1), V(2))))
      [] op = "p_neg"   -> Yes(st, e, VP(PNeg(V(1))))
      [] op = "p_small" -> If(st, SmallMultiple(V(1), V(2), e.n))
      [] op = "s_small" -> If(st, V(1) = PZero \/ DOMAIN V(1) = {<<>>})      \* the constants of the models are small
      \* Many scalars, each with a random part of its own: between them, at least n of their bits take both values.
      [] op = "s_wide"  -> If(st, Len(ArgsOf(e)) >= 60 /\ \A i \in 1..NA : \E y \in Symbols(V(i)) : \A j \in 1..NA : j = i \/ y \notin Symbols(V(j)))
      [] op = "num"     -> Yes(st, e, VNum(e.d))
    \* Parameters and phone numbers
      [] op = "prm_new" -> Yes(Use(st, 2), e, VPrm(G, PVar(-(st.n + 2))))
      [] op = "prm_raw" -> Yes(st, e, VPrm(G, V(1)))
      [] op = "prm_g"   -> Yes(st, e, VP(R(1).g))
      [] op = "prm_h"   -> Yes(st, e, VP(R(1).h))
      [] op = "phone"   -> IF TooLong(1) THEN No(st) ELSE Yes(stn(1), e, VS(Num(1)))
    \* Operators and conversions
      [] op = "eph_mul" -> Yes(st, e, VP(PMul(V(1), V(2))))                    \* ten ways to write it
      [] op = "eph_neg" -> Yes(st, e, VS(PNeg(V(1))))
      [] op = "nonces"  -> LET x == [i \in 1..e.n |-> <<"S", Sym(st, i)>>]     \* one by one, and all together
                           IN  [Yes(Use(st, e.n), e, VS(Sym(st, 1))) EXCEPT !.obs = x \o x]
      [] op = "com_mul" -> Yes(st, e, VP(PMul(V(1), V(2))))
      [] op = "com_sub" -> Yes(st, e, VP(PSub(V(1), V(2))))
      [] op = "s_msg"   -> Yes(st, e, VS(V(e.n + 1)))
      [] op = "s_str"   -> LET s == WithNum(st, e.d) IN Yes(s, e, VS(NumOf(s, e.d)))     \* a string: 256, and its bytes
      [] op = "s_phone" -> IF TooLong(1) THEN No(st) ELSE Yes(stn(1), e, VS(Num(1)))
      [] op = "prm_raw32" -> Yes(st, e, VPrm(G, V(1)))
      [] op = "eq"      -> If(st, R(1) = R(2))
    \* Algebraic MACs
      [] op = "sk_new"  -> Yes(Use(st, e.n + 1), e, VSk([i \in 1..(e.n + 1) |-> Sym(st, i)]))
      [] op = "sk_raw"  -> IF NA = 0 THEN No(st) ELSE Yes(st, e, VSk(Vs(1)))
      [] op = "sk_x"    -> Yes(st, e, VS(R(1).x[e.n + 1]))
      [] op = "sk_pub"  -> LET x == R(1).x IN Yes(st, e, VPk([i \in 1..(Len(x) - 1) |-> PMul(x[i + 1], V(2))]))
      [] op = "pk_x"    -> Yes(st, e, VP(R(1).X[e.n + 1]))
      [] op = "mac"     -> LET x == R(1).x
                               P == PMul(Sym(st, 1), G)
                           IN  IF Len(x) # NA THEN No(st) ELSE Yes(Use(st, 1), e, VTag(P, PMul(Exponent(x, Vs(2)), P)))
      [] op = "tag_raw" -> Yes(st, e, VTag(V(1), V(2)))
      [] op = "tag_P"   -> Yes(st, e, VP(R(1).P))
      [] op = "tag_Q"   -> Yes(st, e, VP(R(1).Q))
      [] op = "rerand"  -> Yes(Use(st, 1), e, VTag(PMul(Sym(st, 1), R(1).P), PMul(Sym(st, 1), R(1).Q)))
      [] op = "rerand2" -> LET s == Sym(st, 1)
                               r == Yes(Use(st, 1), e, VTag(PMul(s, R(1).P), PMul(s, R(1).Q)))
                           IN  [r EXCEPT !.obs = @ \o Obs(VTag(PMul(s, R(2).P), PMul(s, R(2).Q)))]
      [] op = "macv"    -> If(st, MacHolds(R(1).x, R(2).P, R(2).Q, Vs(3)))
    \* Commitments
      [] op = "ped"     -> Yes(st, e, VP(PAdd(V(1), PMul(V(2), V(3)))))
      [] op = "pedopen" -> If(st, V(1) = PAdd(V(2), PMul(V(3), V(4))))
      [] op = "cpn"     -> IF TooLong(1) THEN No(st)
                           ELSE Yes(stn(1), e, VP(PAdd(PMul(Num(1), V(4)), PMul(V(2), V(3)))))
      [] op = "cpnopen" -> IF TooLong(2) THEN No(st)
                           ELSE If(stn(2), V(1) = PAdd(PMul(Num(2), V(5)), PMul(V(3), V(4))))
      [] op = "ros"     -> IF TooLong(1) THEN No(st)
                           ELSE LET s == stn(1)
                                    o == Sym(s, 1)
                                    prm == R(2)
                                IN  Yes(Use(s, 1), e, VRos(PAdd(PMul(Num(1), prm.h), PMul(o, prm.g)), o))
      [] op = "ros_raw" -> Yes(st, e, VRos(V(1), V(2)))
      [] op = "ros_C"   -> Yes(st, e, VP(R(1).C))
      [] op = "ros_o"   -> Yes(st, e, VS(R(1).o))
      [] op = "rosopen" -> IF TooLong(2) THEN No(st)
                           ELSE If(stn(2), R(1).C = PAdd(PMul(Num(2), R(3).h), PMul(R(1).o, R(3).g)))
    \* ElGamal
      [] op = "eg_gen"  -> Yes(Use(st, 1), e, VKp(Sym(st, 1), PMul(Sym(st, 1), G)))
      [] op = "eg_raw"  -> Yes(st, e, VKp(V(1), V(2)))
      [] op = "eg_sec"  -> Yes(st, e, VKp(V(1), PMul(V(1), G)))
      [] op = "eg_sk"   -> Yes(st, e, VS(R(1).s))
      [] op = "eg_pk"   -> Yes(st, e, VP(R(1).p))
      [] op = "enc"     -> Yes(st, e, VEnc(PMul(V(3), G), PAdd(PMul(V(2), G), PMul(V(3), R(1).p))))
      [] op = "enc_raw" -> Yes(st, e, VEnc(V(1), V(2)))
      [] op = "enc_add" -> Yes(st, e, VEnc(PAdd(R(1).c, R(2).c), PAdd(R(1).e, R(2).e)))
      [] op = "dec"     -> Yes(st, e, VP(PSub(R(2).e, PMul(R(1).s, R(2).c))))
      [] op \in {"eg_phone", "eg_vec"} -> IF TooLong(2) THEN No(st)
                            ELSE Yes(stn(2), e, VEnc(PMul(V(3), G), PAdd(PMul(Num(2), G), PMul(V(3), R(1).p))))
    \* Zero-knowledge proofs
      [] op \in {"pf", "pfx", "pfref"} ->   \* pfx: in a process of its own
            LET pr == Prove(st, e.ctx, e.kind, [i \in 1..Len(e.p) |-> st.env[e.p[i]].v], [i \in 1..Len(e.s) |-> st.env[e.s[i]].v])
            IN  Yes(pr.st, e, VPf(e.kind, pr.pf))
      [] op \in {"pfv", "pfvref"} ->
            If(st, Holds(st, e.ctx, e.kind, [i \in 1..Len(e.p) |-> st.env[e.p[i]].v], R(1).x))
      \* A challenge by hand: publics p, commitments c, and without those (numbered through) in skip
      [] op = "chal"    ->
            LET val(r) == st.env[r].v
                np == Len(e.p)
                S == {e.skip[i] : i \in 1..Len(e.skip)}
                ps == [i \in 1..np |-> IF i \in S THEN PZero ELSE val(e.p[i])]
                cs == [i \in 1..Len(e.c) |-> IF np + i \in S THEN PZero ELSE val(e.c[i])]
                key == IF S = {} THEN <<e.ctx, e.kind, ps, cs>> ELSE <<e.ctx, e.kind, ps, cs, S>>
            IN  IF key \in DOMAIN st.ro THEN Yes(st, e, VS(PVar(st.ro[key])))
                ELSE Yes([Use(st, 1) EXCEPT !.ro = (key :> (st.n + 1)) @@ @], e, VS(Sym(st, 1)))
      [] op = "pf_raw"  -> Yes(st, e, VPf(e.kind, Vs(1)))
      [] op = "pf_get"  -> Yes(st, e, VS(R(1).x[e.n + 1]))
      [] op = "pf_set"  -> Yes(st, e, VPf(R(1).kind, [R(1).x EXCEPT ![e.n + 1] = V(2)]))
    \* The protocol
      [] op = "iss_new" -> LET x == <<Sym(st, 1), Sym(st, 2)>>
                           IN  Yes(Use(st, 2), e, VIss(R(1).g, R(1).h, x, <<PMul(x[2], R(1).h)>>))
      [] op = "iss_raw" -> LET x == R(2).x
                           IN  Yes(st, e, VIss(R(1).g, R(1).h, x, [i \in 1..(Len(x) - 1) |-> PMul(x[i + 1], R(1).h)]))
      [] op = "iss_key" -> Yes(st, e, VIss(R(1).g, R(1).h, R(3).x, R(2).X))      \* whose parts need not fit
      [] op = "iss_pk"  -> Yes(st, e, VPk(R(1).X))
      [] op = "usr_new" -> IF TooLong(3) THEN No(st)
                           ELSE Yes(stn(3), e, VUsr(Num(3), R(1).g, R(1).h, R(2).X,
                                                    IF NA > 3 THEN <<R(4).s, R(4).p>> ELSE <<>>, <<>>))
      [] op = "ausr_new" -> Yes(st, e, VAusr(R(1).g, R(1).h, R(2).X, IF NA > 2 THEN <<R(3).s, R(3).p>> ELSE <<>>, <<>>))
      [] op = "issue"   -> IF TooLong(2) \/ ~CanIssue(R(1), 1) THEN No(st) ELSE IssueTo(stn(2), e, R(1), Num(2))
      [] op = "aissue"  -> IF ~CanIssue(R(1), NA - 1) THEN No(st)
                           ELSE IF NA = 2 THEN IssueTo(st, e, R(1), V(2))
                           ELSE Assert(FALSE, <<"only credentials with one attribute here", e>>)
      [] op \in {"fin", "afin"} ->
            LET u == R(1)
                good == NA = 2 /\ IssuanceHolds(st, u, R(2))
                u2 == IF good THEN [u EXCEPT !.cred = <<Fld(R(2), "P"), Fld(R(2), "Q"), Fld(R(2), "m")>>] ELSE u
            IN  [st |-> Put(st, e.a[1], u2), ok |-> good, obs |-> Obs(u2)]
      \* The issuance with other attributes (of any number) in place of its own
      [] op = "finx" ->
            LET u == R(1)
                m == R(2)
                good == /\ NA = 3 /\ ~m.bad
                        /\ IssuanceHolds(st, u, [m EXCEPT !.f[FieldIx.iss.m] = V(3)])
                u2 == IF good THEN [u EXCEPT !.cred = <<Fld(m, "P"), Fld(m, "Q"), V(3)>>] ELSE u
            IN  [st |-> Put(st, e.a[1], u2), ok |-> good, obs |-> Obs(u2)]
      [] op = "usr"     -> [st |-> st, ok |-> TRUE, obs |-> Obs(R(1))]
      [] op = "show"    -> LET u == R(1)
                               ros == R(2)
                           IN  IF u.cred = <<>> \/ Len(u.X) # 1 THEN No(st)
                               ELSE LET sh == ShowCred(st, u)
                                        pr == Prove(sh.st, Membership, "committed_values_equal",
                                                    <<u.g, u.h, sh.f[2], sh.f[3], ros.C>>, <<u.cred[3], sh.z, ros.o>>)
                                    IN  Yes(pr.st, e, VMsg("pres", <<ros.C>> \o sh.f \o pr.pf, FALSE))
      [] op = "ashow"   -> IF R(1).cred = <<>> \/ Len(R(1).X) # 1 \/ e.n # 1 THEN No(st)
                           ELSE LET sh == ShowCred(st, R(1)) IN Yes(sh.st, e, VMsg("apres", sh.f, FALSE))
      [] op = "ver"     -> LET m == R(2)
                           IN  IF ~m.bad /\ PresentationHolds(st, R(1), Fld(m, "CQ"), Fld(m, "P"), Fld(m, "Cm"), SubSeq(m.f, 5, 8))
                               THEN Yes(st, e, VMsg("ver", m.f, FALSE)) ELSE No(st)
      [] op = "aver"    -> LET m == R(2)
                           IN  IF ~m.bad /\ e.n = 1 /\ NA = 2
                                  /\ PresentationHolds(st, R(1), Fld(m, "CQ"), Fld(m, "P"), Fld(m, "Cm"), SubSeq(m.f, 4, 7))
                               THEN Yes(st, e, VMsg("apres", m.f, FALSE)) ELSE No(st)
      \* The same with other blinded (p) and revealed (s) attributes
      [] op = "verx"    -> LET m == R(2) k == IF m.t = "apres" THEN 4 ELSE 5
                           IN  If(st, /\ ~m.bad /\ Len(e.p) = 1 /\ e.s = <<>>
                                      /\ PresentationHolds(st, R(1), Fld(m, "CQ"), Fld(m, "P"), st.env[e.p[1]].v, SubSeq(m.f, k, k + 3)))
      [] op = "unver"   -> IF R(1).bad THEN No(st) ELSE Yes(st, e, VMsg("ver", R(1).f, FALSE))
      [] op = "vros"    -> LET m == R(2)
                           IN  IF ~m.bad /\ MembershipHolds(st, R(1), Fld(m, "E"), Fld(m, "P"), Fld(m, "Cm"), SubSeq(m.f, 9, 12))
                               THEN Yes(st, e, VP(Fld(m, "E"))) ELSE No(st)
      [] op = "msg_get" -> LET i == FieldIx[R(1).t][e.f]
                           IN  Yes(st, e, [k |-> Layout[R(1).t][i][2], v |-> R(1).f[i]])
      [] op = "msg_set" -> Yes(st, e, VMsg(R(1).t, [R(1).f EXCEPT ![FieldIx[R(1).t][e.f]] = V(2)], R(1).bad))
      \* Whether the message still decodes is for the world to say (see MachineTrace); the models take it that it does not.
      [] op = "msg_flip" -> [st |-> Put(st, e.o, [R(1) EXCEPT !.bad = TRUE]), ok |-> FALSE, obs |-> <<>>]
      [] op = "msg_new" -> Yes(st, e, VMsg(e.f, Vs(1), FALSE))
      [] op \in {"sav", "iss_split"} ->
            IF Storable(R(1)) THEN Yes(st, e, Restored(R(1))) ELSE No(st)
      [] op = "say"     -> No(st)
      [] OTHER -> Assert(FALSE, <<"unknown operation", e>>)

(***************************************************************************)
(* Why an operation is refused: what the error may say, if there is one.   *)
(* (Where several things are wrong, it may say any of them.)               *)
(***************************************************************************)
\* What becomes of an error that is handed on as an error of another type
HandedOn(from, kind, to) ==
    CASE to = "" -> kind
      [] from = "MacError" -> (CASE kind = "KeypairDeserialisation" -> "NoIssuerKey"
                                 [] kind = "PointDecompressionError" -> "NoIssuerParameters"
                                 [] kind = "ScalarFormatError" -> "ScalarFormatError"
                                 [] kind = "MessageLengthError" -> "MacCreation"
                                 [] kind = "AuthenticationError" -> "MacVerification")
      [] to = "MacError" -> "PointDecompressionError"           \* of nothing
      [] to = "PhoneNumberError" -> "InvalidPhoneNumber"
      [] to = "CredentialError" -> "MissingData"

LengthError(n) == "MessageLengthError { length: " \o ToString(n) \o " }"

Reasons(st0, e) ==
    LET st == Cleared(st0, e)
        R(i) == st.env[e.a[i]]
        V(i) == st.env[e.a[i]].v
        NA == Len(ArgsOf(e))
        TooLong(i) == Len(R(i).d) > MaxDigits
        When(b, r) == IF b THEN {r} ELSE {}
        NoKeys == When(R(1).X = <<>>, "NoIssuerParameters") \cup When(Len(R(1).x) = 1, "NoIssuerKey")
        Otherwise(s, r) == IF s = {} THEN {r} ELSE s
        op == e.op
    IN
    CASE op \in {"phone", "cpn", "s_phone", "ros"} -> When(TooLong(1), "LengthExceeded")
      [] op \in {"cpnopen", "eg_phone", "eg_vec"} -> When(TooLong(2), "LengthExceeded")
      [] op = "rosopen" -> {IF TooLong(2) THEN "LengthExceeded" ELSE "InvalidPhoneNumber"}
      [] op = "mac"     -> {LengthError(Len(R(1).x) - 1)}
      [] op = "macv"    -> {IF NA - 2 # Len(R(1).x) - 1 THEN LengthError(Len(R(1).x) - 1) ELSE "AuthenticationError"}
      [] op = "usr_new" -> When(TooLong(3), "MissingData")
      [] op = "issue"   -> Otherwise(When(TooLong(2), "MissingData") \cup NoKeys, "MacCreation")
      [] op = "aissue"  -> Otherwise(NoKeys, "MacCreation")
      [] op \in {"fin", "afin"} ->
            When(R(1).X = <<>>, "NoIssuerParameters")
            \cup (IF NA = 1 THEN {"CredentialIssuance"}
                  ELSE When(op = "fin" /\ Fld(R(2), "m") # R(1).m, "BadAttribute")
                       \cup When(R(1).X # <<>> /\ ~IssuanceProved(st, R(1), R(2)), "CredentialIssuance"))
      [] op = "finx"    ->
            When(R(1).X = <<>>, "NoIssuerParameters")
            \cup When(NA # 3 \/ V(3) # R(1).m, "BadAttribute")
            \cup When(R(1).X # <<>> /\ ~IssuanceProved(st, R(1), R(2)), "CredentialIssuance")
      [] op \in {"show", "ashow"} ->
            When(R(1).cred = <<>>, "MissingData")
            \cup When(Len(R(1).X) # 1 \/ (op = "ashow" /\ e.n # 1), "WrongNumberOfAttributes")
      [] op = "ver"     -> {"MacVerification"}
      [] op = "aver"    -> {IF e.n # 1 \/ NA # 2 THEN "WrongNumberOfAttributes" ELSE "MacVerification"}
      [] op = "verx"    -> {IF Len(e.p) # 1 \/ e.s # <<>> THEN "WrongNumberOfAttributes" ELSE "MacVerification"}
      [] op = "vros"    -> {"VerificationFailure"}
      [] op = "say"     -> {IF e.f = "MessageLengthError" /\ e.to = "" THEN LengthError(e.n) ELSE HandedOn(e.t, e.f, e.to)}
      [] OTHER          -> {}
=============================================================================
