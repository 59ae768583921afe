------------------------------ MODULE Protocol ------------------------------
(* The protocol between issuers and users, twice: by Machine, which says   *)
(* what every step computes, and by the ghost state g and the predictions  *)
(* pred, which say without any algebra what ought to come of it.           *)
(*                                                                         *)
(* For every field of every message the ghost state says where it is from. *)
(* An honest message is one all of whose fields are from one step of one   *)
(* party; everything else is the work of the adversary, who controls the   *)
(* network: he replaces fields by others, or by values of his own, and     *)
(* delivers any message to anybody at any time.                            *)
EXTENDS Driver

CONSTANTS World,        \* which parties there are, and what has happened already
          MaxSteps,     \* steps per behaviour
          Acts,         \* kinds of steps
          Final,        \* what is done in the end
          TargetTypes,  \* the types of messages that the adversary changes
          Endurance,    \* how often things are repeated then
          Luck          \* whether some things come out with certain bytes

VARIABLES g,            \* [msg, usr, iss, ros, num]
          pred,         \* for every operation: "ok", "err", or "?"
          steps
vars == <<st, ops, hist, done, g, pred, steps>>

(***************************************************************************)
(* Steps.  Each is [es: operations, ps: predictions, g: ghost state].      *)
(***************************************************************************)
Step(es, ps, gh) == [es |-> es, ps |-> ps, g |-> gh]
Yn(b) == IF b THEN "ok" ELSE "err"
Same(s) == \A i \in 1..Len(s) : s[i] = s[1]

Origin(m, fs) == [i \in 1..Len(fs) |-> m.f[FieldIx[m.t][fs[i]]]]      \* the sources of some fields
\* All the fields fs of m are from one step: its name, or "" if they are not.
From(m, fs) ==
    LET o == Origin(m, fs) IN
    IF (\A i \in 1..Len(fs) : o[i][1] = "step" /\ o[i][3] = fs[i]) /\ Same([i \in 1..Len(fs) |-> o[i][2]]) THEN o[1][2] ELSE ""

IssFields == <<"Cx0", "P", "Q", "c", "s1", "s2", "s3", "s4">>
PresFields == <<"CQ", "P", "Cm", "c", "s1", "s2", "s3">>
RosFields == <<"P", "Cm", "rc", "r1", "r2", "r3">>

Fresh(o, t) == [t |-> t, f |-> [i \in 1..Len(Layout[t]) |-> <<"step", o, Layout[t][i][1]>>], bad |-> FALSE]
SetSrc(m, f, s) == [m EXCEPT !.f[FieldIx[m.t][f]] = s]
PutMsg(gh, o, m) == [gh EXCEPT !.msg = (o :> m) @@ @]

\* Issuer i issues for the number (or, if it is a scalar, attribute) in register n.
IssueAct(gh, o, i, n) ==
    Step(<<Op(IF gh.num[n][1] = "n" THEN "issue" ELSE "aissue", o, <<i, n>>)>>, <<"ok">>,
         [PutMsg(gh, o, SetSrc(Fresh(o, "iss"), "m", gh.num[n]))
            EXCEPT !.step = (o :> [by |-> gh.iss[i], num |-> gh.num[n]]) @@ @])

Acceptable(gh, u, m) ==
    LET x == gh.usr[u] o == From(m, IssFields) IN
    /\ ~m.bad /\ m.t = "iss" /\ o # ""
    /\ gh.step[o].by.prm = x.prm /\ gh.step[o].by.key = x.pk.key /\ x.pk.prm = x.prm
    /\ x.kind = "Usr" => Origin(m, <<"m">>)[1] = x.num
FinAct(gh, u, r) ==
    LET m == gh.msg[r] good == Acceptable(gh, u, m) op == IF gh.usr[u].kind = "Usr" THEN "fin" ELSE "afin" IN
    Step(<<Chk(op, <<u, r>>), Chk("usr", <<u>>)>>, <<Yn(good), "ok">>,
         IF good THEN [gh EXCEPT !.usr[u].cred = <<From(m, IssFields), Origin(m, <<"m">>)[1]>>] ELSE gh)
\* The same issuance with another number of attributes, which no Signal user accepts
AttrsHows == {"none", "twice", "more", "front", "zero", "own"}
FinxAct(gh, o, u, r, how) ==
    LET x == o \o "x" y == o \o "y"
        as == CASE how = "none" -> <<>> [] how = "twice" -> <<x, x>> [] how = "more" -> <<x, y>> [] how = "front" -> <<y, x>>
                [] how = "zero" -> <<x, o \o "z">> [] how = "own" -> <<x>>
        good == how = "own" /\ Acceptable(gh, u, gh.msg[r])
    IN  Step(<<OpF("msg_get", x, <<r>>, "m"), OpNew("s_rand", y), OpConst(o \o "z", 0), Chk("finx", <<u, r>> \o as), Chk("usr", <<u>>)>>,
             <<"ok", "ok", "ok", Yn(good), "ok">>,
             IF good THEN [gh EXCEPT !.usr[u].cred = <<From(gh.msg[r], IssFields), Origin(gh.msg[r], <<"m">>)[1]>>] ELSE gh)
FinNoneAct(gh, u) ==
    Step(<<Chk(IF gh.usr[u].kind = "Usr" THEN "fin" ELSE "afin", <<u>>), Chk("usr", <<u>>)>>, <<"err", "ok">>, gh)

\* User u shows its credential, with roster entry e.
ShowAct(gh, o, u, e) ==
    LET x == gh.usr[u]
        sh == (o :> [prm |-> x.prm, pk |-> x.pk, cred |-> x.cred, ros |-> e]) IN
    IF x.kind = "Usr"
    THEN Step(<<Op("show", o, <<u, e>>)>>, <<Yn(x.cred # <<>>)>>,
              IF x.cred = <<>> THEN gh
              ELSE [PutMsg(gh, o, SetSrc(Fresh(o, "pres"), "E", <<"ros", gh.ros[e].C>>)) EXCEPT !.step = sh @@ @, !.entry = (o :> gh.ros[e]) @@ @])
    ELSE Step(<<OpN("ashow", o, <<u>>, 1)>>, <<Yn(x.cred # <<>>)>>,
              IF x.cred = <<>> THEN gh ELSE [PutMsg(gh, o, Fresh(o, "apres")) EXCEPT !.step = sh @@ @])

\* The credential was shown, as it is, from one that this issuer issued.
Valid(gh, i, m) ==
    LET o == From(m, PresFields) x == gh.step[o] IN
    /\ ~m.bad /\ m.t \in {"pres", "apres", "ver"} /\ o # ""
    /\ x.prm = gh.iss[i].prm /\ x.pk = gh.iss[i]
    /\ gh.step[x.cred[1]].by = gh.iss[i]
    /\ gh.step[x.cred[1]].num = x.cred[2]
VerAct(gh, o, i, r) ==
    LET m == gh.msg[r] good == Valid(gh, i, m) IN
    Step(<<IF m.t = "apres" THEN OpN("aver", o, <<i, r>>, 1) ELSE Op("ver", o, <<i, r>>)>>, <<IF m.bad THEN "?" ELSE Yn(good)>>,
         IF good THEN PutMsg(gh, o, [m EXCEPT !.t = IF m.t = "apres" THEN "apres" ELSE "ver"]) ELSE gh)

\* With a wrong number of attributes
AverAct(gh, o, i, r, n) == Step(<<OpN("aver", o, <<i, r>>, n)>>, <<"err">>, gh)

\* With other lists of blinded and revealed attributes
BlindedHows == {<<>>, <<"x">>, <<"x", "x">>, <<"x", "O">>, <<"O", "x">>, <<"x", "r">>, <<"r">>, <<"x", "x", "x">>}
RevealedHows == {<<>>, <<"z">>, <<"s">>, <<"s", "z">>}
VerxAct(gh, o, i, r, b, s) ==
    LET reg(x) == o \o x
        good == b = <<"x">> /\ s = <<>> /\ Valid(gh, i, gh.msg[r])
    IN  Step(<<OpF("msg_get", reg("x"), <<r>>, "Cm"), OpNew("p_zero", reg("O")), OpNew("p_rand", reg("r")), OpConst(reg("z"), 0), OpNew("s_rand", reg("s")),
               [op |-> "verx", a |-> <<i, r>>, p |-> [j \in 1..Len(b) |-> reg(b[j])], s |-> [j \in 1..Len(s) |-> reg(s[j])]]>>,
             <<"ok", "ok", "ok", "ok", "ok", Yn(good)>>, gh)

\* The entry is for the number of the credential, under the issuer's parameters, and its opening is known.
Member(gh, i, m) ==
    LET o == From(m, RosFields) x == gh.step[o] IN
    /\ ~m.bad /\ m.t \in {"pres", "ver"} /\ o # ""
    /\ o \in DOMAIN gh.entry
    /\ Origin(m, <<"E">>)[1] = <<"ros", gh.entry[o].C>>
    /\ gh.entry[o].good
    /\ gh.entry[o].num = x.cred[2]
    /\ gh.entry[o].prm = x.prm
    /\ x.prm = gh.iss[i].prm
VrosAct(gh, o, i, r) ==
    LET m == gh.msg[r] IN
    Step(IF m.t = "pres" THEN <<Op("unver", r \o "v", <<r>>)>> \o (IF m.bad THEN <<>> ELSE <<Op("vros", o, <<i, r \o "v">>)>>)
         ELSE <<Op("vros", o, <<i, r>>)>>,
         (IF m.t = "pres" THEN <<IF m.bad THEN "?" ELSE "ok">> ELSE <<>>) \o (IF m.bad THEN <<>> ELSE <<Yn(Member(gh, i, m))>>), gh)

RosAct(gh, o, n, p) ==
    Step(<<Op("ros", o, <<n, p>>), Chk("rosopen", <<o, n, p>>)>>, <<"ok", "ok">>,
         [gh EXCEPT !.ros = (o :> [num |-> gh.num[n], prm |-> p, C |-> o, good |-> TRUE]) @@ @])
\* The commitment of one entry with the opening of another
RosMixAct(gh, o, e, f) ==
    Step(<<Op("ros_C", o \o "C", <<e>>), Op("ros_o", o \o "o", <<f>>), Op("ros_raw", o, <<o \o "C", o \o "o">>)>>, <<"ok", "ok", "ok">>,
         [gh EXCEPT !.ros = (o :> [gh.ros[e] EXCEPT !.good = @ /\ gh.ros[f].C = gh.ros[e].C]) @@ @])

\* Show a credential, if there is one, and have the presentation verified.
UseAct(gh, o, u, e, i) ==
    LET a == ShowAct(gh, o, u, e) IN
    IF gh.usr[u].cred = <<>> THEN a
    ELSE LET b == VerAct(a.g, o \o "v", i, o)
             c == VrosAct(b.g, o \o "w", i, IF b.ps[1] = "ok" THEN o \o "v" ELSE o)
         IN  IF gh.usr[u].kind = "Ausr" THEN Step(a.es \o b.es, a.ps \o b.ps, b.g)
             ELSE Step(a.es \o b.es \o c.es, a.ps \o b.ps \o c.ps, c.g)

\* By its own encoding, or by a binary or a text format
SavHow(k) == <<"own", "bin", "json">>[1 + (k % 3)]
SavAct(gh, x, how) == Step(<<OpF("sav", x, <<x>>, how)>>, <<"ok">>, gh)

\* A copy of an issuer, restored as a whole or put together from its parts
IssCopyAct(gh, o, i, how, how2) ==
    Step(<<OpF(how, o, <<i>>, how2), Op("iss_pk", "q" \o o, <<o>>)>>, <<"ok", "ok">>, [gh EXCEPT !.iss = (o :> gh.iss[i]) @@ @])
\* A user is restored from a copy of another state of it.
RevertAct(gh, u, c, how) == Step(<<OpF("sav", u, <<c>>, how), Chk("usr", <<u>>)>>, <<"ok", "ok">>, [gh EXCEPT !.usr[u] = gh.usr[c]])
\* A copy of a user, for instance on an older backup
CopyAct(gh, o, u, how) == Step(<<OpF("sav", o, <<u>>, how), Chk("usr", <<o>>)>>, <<"ok", "ok">>, [gh EXCEPT !.usr = (o :> gh.usr[u]) @@ @])

(***************************************************************************)
(* The adversary                                                           *)
(***************************************************************************)
FieldType(m, f) == Layout[m.t][FieldIx[m.t][f]][2]
\* Put field f2 of message r2 in the place of field f of message r.
MoveAct(gh, o, r, f, r2, f2) ==
    Step(<<OpF("msg_get", o \o "x", <<r2>>, f2), OpF("msg_set", o, <<r, o \o "x">>, f)>>, <<"ok", "ok">>,
         PutMsg(gh, o, SetSrc(gh.msg[r], f, gh.msg[r2].f[FieldIx[gh.msg[r2].t][f2]])))
\* Exchange two fields.
SwapAct(gh, o, r, f, f2) ==
    LET m == gh.msg[r] s == m.f[FieldIx[m.t][f]] s2 == m.f[FieldIx[m.t][f2]] IN
    Step(<<OpF("msg_get", o \o "x", <<r>>, f), OpF("msg_get", o \o "y", <<r>>, f2),
           OpF("msg_set", o \o "z", <<r, o \o "y">>, f), OpF("msg_set", o, <<o \o "z", o \o "x">>, f2)>>, <<"ok", "ok", "ok", "ok">>,
         PutMsg(gh, o, SetSrc(SetSrc(m, f, s2), f2, s)))
\* Another value: a random one, zero, one (the basepoint), or one computed from what was there.
AlterAct(gh, o, r, f, how) ==
    LET m == gh.msg[r] t == FieldType(m, f) x == o \o "x" y == o \o "y"
        es == CASE how = "rand" -> <<OpNew(IF t = "S" THEN "s_rand" ELSE "p_rand", x)>>
                [] how = "zero" -> <<IF t = "S" THEN OpConst(x, 0) ELSE OpNew("p_zero", x)>>
                [] how = "one"  -> <<IF t = "S" THEN OpConst(x, 1) ELSE OpNew("p_g", x)>>
                [] how = "neg"  -> <<OpF("msg_get", y, <<r>>, f), Op(IF t = "S" THEN "s_neg" ELSE "p_neg", x, <<y>>)>>
                [] how = "inc"  -> <<OpF("msg_get", y, <<r>>, f), IF t = "S" THEN OpConst(x \o "1", 1) ELSE OpNew("p_g", x \o "1"),
                                     Op(IF t = "S" THEN "s_add" ELSE "p_add", x, <<y, x \o "1">>)>>
                [] how = "mul"  -> <<OpF("msg_get", y, <<r>>, f), OpNew("s_rand", x \o "1"),
                                     Op(IF t = "S" THEN "s_mul" ELSE "p_mul", x, <<x \o "1", y>>)>>
                [] how = "dbl"  -> <<OpF("msg_get", y, <<r>>, f), Op(IF t = "S" THEN "s_add" ELSE "p_add", x, <<y, y>>)>>
    IN  Step(Append(es, OpF("msg_set", o, <<r, x>>, f)), [i \in 1..(Len(es) + 1) |-> "ok"],
             PutMsg(gh, o, SetSrc(m, f, <<"other", o>>)))
Hows == {"rand", "zero", "one", "neg", "inc", "mul", "dbl"}

\* All points of the message times the same scalar, or all of them plus a point
Points(m) == SelectSeq([i \in 1..Len(Layout[m.t]) |-> Layout[m.t][i][1]], LAMBDA f : FieldType(m, f) = "P")
ScaleAct(gh, o, r, how) ==
    LET m == gh.msg[r] ps == Points(m) x(i) == o \o "x" \o ToString(i) y(i) == o \o "y" \o ToString(i)
        reg(i) == IF i = 0 THEN r ELSE IF i = Len(ps) THEN o ELSE o \o "m" \o ToString(i)
        es == <<IF how = "mul" THEN OpNew("s_rand", o \o "r") ELSE IF how = "two" THEN OpConst(o \o "r", 2) ELSE OpNew("p_rand", o \o "r")>>
              \o FoldLeft(LAMBDA a, b : a \o b, <<>>,
                    [i \in 1..Len(ps) |-> <<OpF("msg_get", x(i), <<r>>, ps[i]),
                                            IF how = "add" THEN Op("p_add", y(i), <<x(i), o \o "r">>) ELSE Op("p_mul", y(i), <<o \o "r", x(i)>>),
                                            OpF("msg_set", reg(i), <<reg(i - 1), y(i)>>, ps[i])>>])
    IN  Step(es, [i \in 1..Len(es) |-> "ok"],
             PutMsg(gh, o, [m EXCEPT !.f = [i \in 1..Len(@) |-> IF Layout[m.t][i][2] = "P" THEN <<"other", o>> ELSE @[i]]]))

\* A point is shifted by a multiple of another, and responses by as much times the challenge, in the hope that
\* the equations of the proof are as true as before.
Chal(f) == IF f \in {"r1", "r2", "r3"} THEN "rc" ELSE "c"
ShiftAct(gh, o, r, f, b, rs, sign) ==
    LET m == gh.msg[r] n == Len(rs)
        reg(i) == IF i = n THEN o ELSE o \o "m" \o ToString(i)
        es == <<OpNew("s_rand", o \o "d"),
                CASE b \in {"g", "h"} -> Op("prm_" \o b, o \o "b", <<"p1">>)
                  [] b = "X" -> OpN("pk_x", o \o "b", <<"qi1">>, 0)
                  [] OTHER -> OpF("msg_get", o \o "b", <<r>>, b),
                Op("p_mul", o \o "b", <<o \o "d", o \o "b">>), OpF("msg_get", o \o "x", <<r>>, f), Op("p_add", o \o "x", <<o \o "x", o \o "b">>),
                OpF("msg_set", reg(0), <<r, o \o "x">>, f)>>
              \o FoldLeft(LAMBDA a, x : a \o x, <<>>,
                   [i \in 1..n |-> <<OpF("msg_get", o \o "c", <<r>>, Chal(rs[i])), Op("s_mul", o \o "c", <<o \o "c", o \o "d">>),
                                     OpF("msg_get", o \o "s", <<r>>, rs[i]), Op(sign, o \o "s", <<o \o "s", o \o "c">>),
                                     OpF("msg_set", reg(i), <<reg(i - 1), o \o "s">>, rs[i])>>])
    IN  Step(es, [i \in 1..Len(es) |-> "ok"], PutMsg(gh, o, FoldLeft(LAMBDA a, x : SetSrc(a, x, <<"other", o>>), m, <<f>> \o rs)))
Responses(t) ==
    CASE t = "iss" -> {<<>>} \cup {<<x>> : x \in {"s1", "s2", "s3", "s4"}} \cup {<<"s1", x>> : x \in {"s3", "s4"}}
      [] t = "apres" -> {<<>>} \cup {<<x>> : x \in {"s1", "s2", "s3"}} \cup {<<"s1", "s2">>, <<"s2", "s3">>}
      [] OTHER -> {<<>>} \cup {<<x>> : x \in {"s1", "s2", "s3", "r1", "r2", "r3"}} \cup {<<x, y>> : x \in {"s1", "s2", "s3"}, y \in {"r1", "r2", "r3"}}
                  \cup {<<"s2", "s3", "r2">>}
\* The point P is scaled, and the responses that go with it unscaled.
UnscaleAct(gh, o, r) ==
    LET m == gh.msg[r] x == o \o "x" y == o \o "y"
        rs == IF m.t = "iss" THEN <<"s4">> ELSE IF m.t = "apres" THEN <<"s1">> ELSE <<"s1", "r1">>
        reg(i) == IF i = Len(rs) THEN o ELSE o \o "m" \o ToString(i)
        es == <<OpNew("s_rand", o \o "k"), Op("s_inv", o \o "i", <<o \o "k">>), OpF("msg_get", x, <<r>>, "P"), Op("p_mul", x, <<o \o "k", x>>),
                OpF("msg_set", reg(0), <<r, x>>, "P")>>
              \o (IF m.t = "iss"
                  THEN <<OpF("msg_get", y, <<r>>, "s1"), OpF("msg_get", x, <<r>>, "s4"), Op("s_add", x, <<x, y>>), Op("s_mul", x, <<x, o \o "i">>),
                         Op("s_sub", x, <<x, y>>), OpF("msg_set", o, <<reg(0), x>>, "s4")>>
                  ELSE FoldLeft(LAMBDA a, z : a \o z, <<>>,
                        [i \in 1..Len(rs) |-> <<OpF("msg_get", x, <<r>>, rs[i]), Op("s_mul", x, <<x, o \o "i">>), OpF("msg_set", reg(i), <<reg(i - 1), x>>, rs[i])>>]))
    IN  Step(es, [i \in 1..Len(es) |-> "ok"], PutMsg(gh, o, FoldLeft(LAMBDA a, z : SetSrc(a, z, <<"other", o>>), m, <<"P">> \o rs)))

\* The same message, but with one of its bits flipped
Bits == [iss |-> 328 * 8, apres |-> 256 * 8, pres |-> 448 * 8, ver |-> 448 * 8]
\* Any bit, or one of the lowest or highest of a multiple of eight bytes, where fields begin and end
RandomBit(n) == IF RandomElement({TRUE, FALSE}) THEN RandomElement(0..(n - 1))
                ELSE 64 * RandomElement(0..((n \div 64) - 1)) + RandomElement({0, 1, 2, 59, 60, 61, 62, 63})
FlipAct(gh, o, r, bit) == Step(<<OpN("msg_flip", o, <<r>>, bit)>>, <<"?">>, PutMsg(gh, o, [gh.msg[r] EXCEPT !.bad = TRUE]))

\* A message of one type made of the fields of others: the CQ .. s3 of one, the rest of another
SpliceAct(gh, o, r, r2, fs) ==
    LET m == gh.msg[r] m2 == gh.msg[r2]
        reg(i) == IF i = 0 THEN r ELSE IF i = Len(fs) THEN o ELSE o \o "m" \o ToString(i)
        x(i) == o \o "x" \o ToString(i)
        es == FoldLeft(LAMBDA a, b : a \o b, <<>>,
                    [i \in 1..Len(fs) |-> <<OpF("msg_get", x(i), <<r2>>, fs[i]), OpF("msg_set", reg(i), <<reg(i - 1), x(i)>>, fs[i])>>])
    IN  Step(es, [i \in 1..Len(es) |-> "ok"],
             PutMsg(gh, o, FoldLeft(LAMBDA a, f : SetSrc(a, f, m2.f[FieldIx[m2.t][f]]), m, fs)))

(***************************************************************************)
(* The worlds                                                              *)
(***************************************************************************)
PkOf(p, k) == [prm |-> p, key |-> k]
G0 == [msg |-> [x \in {} |-> 0], usr |-> [x \in {} |-> 0], iss |-> [x \in {} |-> 0], ros |-> [x \in {} |-> 0], num |-> [x \in {} |-> 0],
       step |-> ("" :> [by |-> 0, num |-> 0, cred |-> <<"", "">>, prm |-> 0, pk |-> 0]), entry |-> [x \in {} |-> 0]]

\* Registers are parameters p*, keys k*, issuers i*, public keys q*, users u*, numbers n*, attributes a*, entries e*.
DefPrm(gh, p) == Step(<<OpNew("prm_new", p)>>, <<"ok">>, gh)
DefNum(gh, n, d) == Step(<<OpNum(n, d)>>, <<"ok">>, [gh EXCEPT !.num = (n :> <<"n", d>>) @@ @])
DefAttr(gh, a) == Step(<<OpNew("s_rand", a)>>, <<"ok">>, [gh EXCEPT !.num = (a :> <<"a", a>>) @@ @])
DefIss(gh, i, p) ==
    Step(<<Op("iss_new", i, <<p>>), Op("iss_pk", "q" \o i, <<i>>)>>, <<"ok", "ok">>, [gh EXCEPT !.iss = (i :> PkOf(p, i)) @@ @])
DefKey(gh, k) == Step(<<OpN("sk_new", k, <<>>, 1)>>, <<"ok">>, gh)
DefIssRaw(gh, i, p, k) ==
    Step(<<Op("iss_raw", i, <<p, k>>), Op("iss_pk", "q" \o i, <<i>>)>>, <<"ok", "ok">>, [gh EXCEPT !.iss = (i :> PkOf(p, k)) @@ @])
DefUsr(gh, u, p, i, n, key) ==
    Step((IF key THEN <<OpNew("eg_gen", "kp" \o u)>> ELSE <<>>)
         \o <<Op("usr_new", u, <<p, "q" \o i, n>> \o (IF key THEN <<"kp" \o u>> ELSE <<>>))>>,
         (IF key THEN <<"ok">> ELSE <<>>) \o <<"ok">>,
         [gh EXCEPT !.usr = (u :> [kind |-> "Usr", prm |-> p, pk |-> gh.iss[i], num |-> gh.num[n], cred |-> <<>>]) @@ @])
DefAusr(gh, u, p, i, key) ==
    Step((IF key THEN <<OpNew("eg_gen", "kp" \o u)>> ELSE <<>>)
         \o <<Op("ausr_new", u, <<p, "q" \o i>> \o (IF key THEN <<"kp" \o u>> ELSE <<>>))>>,
         (IF key THEN <<"ok">> ELSE <<>>) \o <<"ok">>,
         [gh EXCEPT !.usr = (u :> [kind |-> "Ausr", prm |-> p, pk |-> gh.iss[i], num |-> <<>>, cred |-> <<>>]) @@ @])

\* Steps as data, so that worlds can be scripts: Do1(gh, k, a) is the step a, whose new register is named with the number k.
Do1(gh, k, a) ==
    LET o == IF "o" \in DOMAIN a THEN a.o ELSE ToString(k) IN
    CASE a.t = "prm" -> DefPrm(gh, a.o) [] a.t = "num" -> DefNum(gh, a.o, a.d) [] a.t = "attr" -> DefAttr(gh, a.o)
      [] a.t = "issuer" -> DefIss(gh, a.o, a.p) [] a.t = "key" -> DefKey(gh, a.o) [] a.t = "issraw" -> DefIssRaw(gh, a.o, a.p, a.k)
      [] a.t = "user" -> DefUsr(gh, a.o, a.p, a.i, a.n, a.key) [] a.t = "auser" -> DefAusr(gh, a.o, a.p, a.i, a.key)
      [] a.t = "issue" -> IssueAct(gh, IF "o" \in DOMAIN a THEN a.o ELSE "m" \o o, a.i, a.n)
      [] a.t = "fin" -> FinAct(gh, a.u, a.m)
      [] a.t = "finx" -> FinxAct(gh, "x" \o o, a.u, a.m, a.how)
      [] a.t = "verx" -> VerxAct(gh, "x" \o o, a.i, a.m, a.b, a.s)
      [] a.t = "none" -> FinNoneAct(gh, a.u)
      [] a.t = "show" -> ShowAct(gh, IF "o" \in DOMAIN a THEN a.o ELSE "m" \o o, a.u, a.e)
      [] a.t = "ver" -> VerAct(gh, "v" \o o, a.i, a.m)
      [] a.t = "aver" -> AverAct(gh, "v" \o o, a.i, a.m, a.n)
      [] a.t = "vros" -> VrosAct(gh, "v" \o o, a.i, a.m)
      [] a.t = "ros" -> RosAct(gh, IF "o" \in DOMAIN a THEN a.o ELSE "e" \o o, a.n, a.p)
      [] a.t = "mix" -> RosMixAct(gh, IF "o" \in DOMAIN a THEN a.o ELSE "e" \o o, a.e, a.e2)
      [] a.t = "use" -> UseAct(gh, "m" \o o, a.u, a.e, a.i)
      [] a.t = "sav" -> SavAct(gh, a.x, SavHow(k))
      [] a.t = "copy" -> CopyAct(gh, "u" \o o, a.u, SavHow(k))
      [] a.t = "icopy" -> IssCopyAct(gh, "i" \o o, a.i, a.how, SavHow(k))
      [] a.t = "revert" -> RevertAct(gh, a.u, a.c, SavHow(k))
      [] a.t = "move" -> MoveAct(gh, "m" \o o, a.m, a.f, a.m2, a.f2)
      [] a.t = "swap" -> SwapAct(gh, "m" \o o, a.m, a.f, a.f2)
      [] a.t = "alter" -> AlterAct(gh, "m" \o o, a.m, a.f, a.how)
      [] a.t = "scale" -> ScaleAct(gh, "m" \o o, a.m, a.how)
      [] a.t = "shift" -> ShiftAct(gh, "m" \o o, a.m, a.f, a.b, a.rs, a.sign)
      [] a.t = "unscale" -> UnscaleAct(gh, "m" \o o, a.m)
      [] a.t = "flip" -> FlipAct(gh, "m" \o o, a.m, a.bit)
      [] a.t = "splice" -> SpliceAct(gh, "m" \o o, a.m, a.m2, a.fs)

A(t) == [t |-> t]
Prm(o) == [t |-> "prm", o |-> o]
NumA(o, d) == [t |-> "num", o |-> o, d |-> d]
Issuer(o, p) == [t |-> "issuer", o |-> o, p |-> p]
User(o, p, i, n, key) == [t |-> "user", o |-> o, p |-> p, i |-> i, n |-> n, key |-> key]
Auser(o, p, i, key) == [t |-> "auser", o |-> o, p |-> p, i |-> i, key |-> key]
IssueA(o, i, n) == [t |-> "issue", o |-> o, i |-> i, n |-> n]
FinA(u, m) == [t |-> "fin", u |-> u, m |-> m]
ShowA(o, u, e) == [t |-> "show", o |-> o, u |-> u, e |-> e]
RosA(o, n, p) == [t |-> "ros", o |-> o, n |-> n, p |-> p]

\* Phone numbers of all lengths, and some that are nearly the same
RandomDigits(n) ==
    LET k == RandomElement(1..8) IN         \* sometimes with long runs, or nothing but zeros, or nines
    CASE k = 1 -> [i \in 1..n |-> 0] [] k = 2 -> [i \in 1..n |-> 9] [] k = 3 -> [i \in 1..n |-> RandomElement({0, 9})]
      [] OTHER -> [i \in 1..n |-> RandomElement(0..9)]
Near(d) == {d, Append(d, 0), <<0>> \o d, Append(d, 7), [d EXCEPT ![Len(d)] = (@ + 1) % 10], [d EXCEPT ![1] = (@ + 1) % 10], Tail(d)} \ {<<>>}
D1 == <<1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4>>
D2 == <<1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 5>>
Fits26(S) == {d \in S : Len(d) <= MaxDigits}
\* The two numbers of a world: the second often nearly equals the first.  (A definition without parameters is drawn only once.)
Length(x) == IF RandomElement(1..3) = 1 THEN RandomElement({1, 2, 15, 16, 17, 25, MaxDigits}) ELSE RandomElement(1..MaxDigits)
NumPairs(x) ==
    IF ~Sim THEN {<<D1, D2>>}
    ELSE UNION {{<<d1, d2>> : d2 \in {IF RandomElement(1..3) = 1 THEN RandomDigits(Length(x)) ELSE RandomElement(Fits26(Near(d1)))}}
                : d1 \in {RandomDigits(Length(x))}}

Parties(d1, d2) ==
    <<Prm("p1"), Issuer("i1", "p1"), NumA("n1", d1), NumA("n2", d2), User("u1", "p1", "i1", "n1", FALSE), RosA("e1", "n1", "p1")>>
Script(w, d1, d2) ==
    CASE w = "fresh" -> Parties(d1, d2) \o <<User("u2", "p1", "i1", "n2", TRUE)>>
      [] w = "honest" -> Parties(d1, d2) \o <<Issuer("i2", "p1"), User("u2", "p1", "i1", "n2", TRUE), User("u3", "p1", "i2", "n1", TRUE),
                                              [t |-> "attr", o |-> "a1"], Auser("u4", "p1", "i1", TRUE), RosA("e2", "n2", "p1")>>
      [] w = "issued" -> Parties(d1, d2)
             \o <<Issuer("i2", "p1"), Prm("p2"), [t |-> "key", o |-> "k1"], [t |-> "issraw", o |-> "i3", p |-> "p1", k |-> "k1"],
                  [t |-> "issraw", o |-> "i4", p |-> "p2", k |-> "k1"], User("u2", "p1", "i3", "n1", TRUE),
                  User("u3", "p2", "i4", "n1", FALSE), User("u4", "p2", "i3", "n1", TRUE), Auser("u5", "p1", "i1", FALSE),
                  IssueA("m1", "i1", "n1"), IssueA("m2", "i1", "n1"), IssueA("m3", "i2", "n1"), IssueA("m4", "i1", "n2"),
                  IssueA("m5", "i3", "n1"), IssueA("m6", "i4", "n1")>>
      [] w \in {"life", "lifekey", "alife", "alifekey"} ->         \* the life of one user, with or without an ElGamal key
             <<Prm("p1"), Issuer("i1", "p1"), NumA("n1", d1), NumA("n2", d2), RosA("e1", "n1", "p1"), [t |-> "attr", o |-> "a1"],
               IF w \in {"life", "lifekey"} THEN User("u1", "p1", "i1", "n1", w = "lifekey") ELSE Auser("u1", "p1", "i1", w = "alifekey"),
               IssueA("m1", "i1", "n1"), IssueA("m2", "i1", "n1"), IssueA("m3", "i1", IF w \in {"life", "lifekey"} THEN "n2" ELSE "a1"),
               [t |-> "alter", o |-> "4", m |-> "m1", f |-> "Q", how |-> "rand"]>>
      [] w = "one" -> Parties(d1, d2) \o <<IssueA("m1", "i1", "n1"), IssueA("m2", "i1", "n1"), IssueA("m3", "i1", "n2")>>
      [] w = "shown" -> Parties(d1, d2)
             \o <<User("u2", "p1", "i1", "n2", FALSE), RosA("e2", "n2", "p1"),
                  IssueA("m1", "i1", "n1"), IssueA("m2", "i1", "n2"), FinA("u1", "m1"), FinA("u2", "m2"),
                  ShowA("s1", "u1", "e1"), ShowA("s2", "u1", "e1"), ShowA("s3", "u2", "e2")>>
      [] w = "many" -> Parties(d1, d2)
             \o <<Issuer("i2", "p1"), Prm("p2"), [t |-> "key", o |-> "k1"], [t |-> "issraw", o |-> "i3", p |-> "p1", k |-> "k1"],
                  [t |-> "issraw", o |-> "i4", p |-> "p2", k |-> "k1"],
                  User("u2", "p1", "i1", "n2", TRUE), User("u3", "p1", "i2", "n1", FALSE), User("u4", "p1", "i3", "n1", FALSE),
                  User("u5", "p2", "i4", "n1", FALSE), User("u6", "p2", "i3", "n1", TRUE), [t |-> "attr", o |-> "a1"], Auser("u7", "p1", "i1", FALSE),
                  RosA("e2", "n2", "p1"), RosA("e3", "n1", "p2"), RosA("e4", "n1", "p1"), [t |-> "mix", o |-> "e5", e |-> "e1", e2 |-> "e4"],
                  IssueA("m1", "i1", "n1"), IssueA("m2", "i1", "n2"), IssueA("m3", "i2", "n1"), IssueA("m4", "i3", "n1"), IssueA("m5", "i4", "n1"),
                  IssueA("m7", "i1", "a1"),
                  FinA("u1", "m1"), FinA("u2", "m2"), FinA("u3", "m3"), FinA("u4", "m4"), FinA("u5", "m5"), FinA("u6", "m5"), FinA("u7", "m7"),
                  ShowA("s1", "u1", "e1"), ShowA("s2", "u2", "e2"), ShowA("s3", "u3", "e1"), ShowA("s4", "u4", "e1"), ShowA("s5", "u5", "e3"),
                  ShowA("s7", "u7", "e1")>>

(***************************************************************************)
(* Behaviours                                                              *)
(***************************************************************************)
\* Encodings that begin or end with a zero are as good as any, but rare: some are wished for.
Places == [issue |-> <<32, 63, 64, 95>>, aissue |-> <<32, 63, 64, 95>>, iss_new |-> <<64, 95, 96, 127, 128, 159>>, prm_new |-> <<32, 63>>,
           eg_gen |-> <<0, 31, 32, 63>>, ros |-> <<0, 31, 32, 63>>]
WithLuck(e, k) ==
    IF ~Luck \/ e.op \notin DOMAIN Places \/ (k + Len(hist)) % 2 = 1 THEN e
    ELSE LET p == Places[e.op] IN Lucky(e, p[(IF Sim THEN RandomElement(1..Len(p)) ELSE 1 + ((k \div 2) % Len(p)))], 0)
Perform(acts) ==
    LET r == FoldLeft(LAMBDA acc, a :
                  LET s == Do1(acc.g, Len(acc.ops), a) x == Run(acc.st, s.es, acc.hist)
                  IN  [st |-> x.st, hist |-> x.hist, ops |-> acc.ops \o [i \in 1..Len(s.es) |-> WithLuck(s.es[i], Len(acc.ops) + i)], pred |-> acc.pred \o s.ps, g |-> s.g],
                  [st |-> st, hist |-> hist, ops |-> ops, pred |-> pred, g |-> g], acts)
    IN  /\ st' = r.st /\ hist' = r.hist /\ ops' = r.ops /\ pred' = r.pred /\ g' = r.g

Init == st = Init0 /\ hist = <<>> /\ ops = <<>> /\ done = FALSE /\ g = G0 /\ pred = <<>> /\ steps = 0

Setup ==
    /\ ops = <<>>
    /\ \E d \in NumPairs(ops), w \in Pick(World) : \E s \in {Script(w, d[1], d[2])} : Perform(s)
    /\ UNCHANGED <<done, steps>>

Issuers == DOMAIN g.iss
Users == DOMAIN g.usr
Entries == DOMAIN g.ros
Nums == DOMAIN g.num
Msgs(ts) == {m \in DOMAIN g.msg : g.msg[m].t \in ts /\ ~g.msg[m].bad}
Target == Msgs(TargetTypes)
FirstOfType(ms) == IF Sim THEN ms ELSE {CHOOSE m \in ms : g.msg[m].t = t : t \in {g.msg[m].t : m \in ms}}
Press == Msgs({"pres", "apres"})
FieldsOf(r) == DOMAIN FieldIx[g.msg[r].t]
NumsFor(u) == IF g.usr[u].kind = "Usr" THEN {g.usr[u].num} ELSE {}
Prms == {x.prm : x \in {g.iss[i] : i \in Issuers}}

\* The steps of honest parties follow the protocol: each of the users gets, from its issuer, what is for it.
HonestIssues == {[t |-> "issue", i |-> i, n |-> n] : i \in Issuers, n \in Nums}
Finishable(u) == {m \in Msgs({"iss"}) : Acceptable(g, u, g.msg[m])}
OwnEntries(u) == {e \in Entries : g.ros[e].good /\ g.ros[e].prm = g.usr[u].prm /\ (g.usr[u].cred # <<>> => g.ros[e].num = g.usr[u].cred[2])}

OneStep ==
    \/ "issue" \in Acts /\ \E i \in Pick(Issuers), n \in Pick(Nums) : Perform(<<[t |-> "issue", i |-> i, n |-> n]>>)
    \/ "fin" \in Acts /\ \E u \in Pick(Users), m \in Pick(Msgs({"iss"})) : Perform(<<[t |-> "fin", u |-> u, m |-> m]>>)
    \/ "honestfin" \in Acts /\ \E u \in Pick(Users) : \E m \in Pick(Finishable(u)) : Perform(<<[t |-> "fin", u |-> u, m |-> m]>>)
    \/ "none" \in Acts /\ \E u \in Pick(Users) : Perform(<<[t |-> "none", u |-> u]>>)
    \/ "show" \in Acts /\ \E u \in Pick(Users), e \in Pick(Entries) : Perform(<<[t |-> "show", u |-> u, e |-> e]>>)
    \/ "honestshow" \in Acts /\ \E u \in Pick({u \in Users : g.usr[u].cred # <<>>}) : \E e \in Pick(OwnEntries(u)) :
            Perform(<<[t |-> "show", u |-> u, e |-> e]>>)
    \/ "ros" \in Acts /\ \E n \in Pick({n \in Nums : g.num[n][1] = "n"}), p \in Pick(Prms) : Perform(<<[t |-> "ros", n |-> n, p |-> p]>>)
    \/ "mix" \in Acts /\ \E e, e2 \in Pick(Entries) : Perform(<<[t |-> "mix", e |-> e, e2 |-> e2]>>)
    \/ "sav" \in Acts /\ \E x \in Pick(Users \cup Issuers \cup Entries \cup Msgs({"iss", "pres", "apres", "ver"}) \cup Prms
                                        \cup {"q" \o i : i \in Issuers}) : Perform(<<[t |-> "sav", x |-> x]>>)
    \/ "savusr" \in Acts /\ \E u \in Pick(Users) : Perform(<<[t |-> "sav", x |-> u]>>)
    \/ "copy" \in Acts /\ \E u \in Pick(Users) : Perform(<<[t |-> "copy", u |-> u]>>)
    \/ "revert" \in Acts /\ \E u, c \in Pick(Users) : u # c /\ g.usr[u].kind = g.usr[c].kind /\ Perform(<<[t |-> "revert", u |-> u, c |-> c]>>)
    \/ "icopy" \in Acts /\ \E i \in Pick(Issuers), how \in Pick({"sav", "iss_split"}) : Perform(<<[t |-> "icopy", i |-> i, how |-> how]>>)
    \/ "ver" \in Acts /\ \E i \in Pick(Issuers), m \in Pick(Press) : Perform(<<[t |-> "ver", i |-> i, m |-> m]>>)
    \/ "vros" \in Acts /\ \E i \in Pick(Issuers), m \in Pick(Msgs({"ver"})) : Perform(<<[t |-> "vros", i |-> i, m |-> m]>>)
    \/ "alter" \in Acts /\ \E r \in Pick(Target) : \E f \in Pick({f \in FieldsOf(r) : Origin(g.msg[r], <<f>>)[1][1] # "other"}), how \in Pick(Hows) :
            Perform(<<[t |-> "alter", m |-> r, f |-> f, how |-> how]>>)
    \/ "move" \in Acts /\ \E r \in Pick(Target) : \E f \in Pick(FieldsOf(r)), r2 \in Pick(Press \cup Msgs({"iss"})) :
            \E f2 \in Pick({x \in FieldsOf(r2) : FieldType(g.msg[r2], x) = FieldType(g.msg[r], f)}) :
            Perform(<<[t |-> "move", m |-> r, f |-> f, m2 |-> r2, f2 |-> f2]>>)
    \/ "moves" \in Acts /\ \E r \in Pick(Target) : \E f \in Pick(FieldsOf(r)), r2 \in Pick({x \in Target : g.msg[x].t = g.msg[r].t} \ {r}) :
            Perform(<<[t |-> "move", m |-> r, f |-> f, m2 |-> r2, f2 |-> f]>>)
    \/ "swap" \in Acts /\ \E r \in Pick(Target) : \E f \in Pick(FieldsOf(r)) :
            \E f2 \in Pick({x \in FieldsOf(r) : FieldType(g.msg[r], x) = FieldType(g.msg[r], f) /\ FieldIx[g.msg[r].t][x] > FieldIx[g.msg[r].t][f]}) :
            Perform(<<[t |-> "swap", m |-> r, f |-> f, f2 |-> f2]>>)
    \/ "scale" \in Acts /\ \E r \in Pick(Target), how \in Pick({"mul", "two", "add"}) : Perform(<<[t |-> "scale", m |-> r, how |-> how]>>)
    \/ "splice" \in Acts /\ \E r, r2 \in Pick({r \in Target : g.msg[r].t = "pres"}) :
            \E fs \in Pick({<<"rc", "r1", "r2", "r3">>, <<"E", "rc", "r1", "r2", "r3">>, <<"c", "s1", "s2", "s3">>, <<"CQ", "P", "Cm">>,
                            <<"P", "Cm">>, <<"P", "CQ">>, <<"P", "Cm", "rc", "r1", "r2", "r3">>, <<"E", "P", "Cm", "rc", "r1", "r2", "r3">>}) :
            r # r2 /\ Perform(<<[t |-> "splice", m |-> r, m2 |-> r2, fs |-> fs]>>)
    \/ "isplice" \in Acts /\ \E r, r2 \in Pick({r \in Target : g.msg[r].t = "iss"}) :
            \E fs \in Pick({<<"c", "s1", "s2", "s3", "s4">>, <<"P", "Q">>, <<"P", "Q", "m">>, <<"Cx0", "c", "s1", "s2", "s3", "s4">>,
                            <<"Cx0", "P", "Q", "c", "s1", "s2", "s3", "s4">>, <<"Cx0", "P", "Q">>}) :
            r # r2 /\ Perform(<<[t |-> "splice", m |-> r, m2 |-> r2, fs |-> fs]>>)
    \/ "shift" \in Acts /\ \E r \in Pick(FirstOfType(Target)) : \E f \in Pick({f \in FieldsOf(r) : FieldType(g.msg[r], f) = "P"}) :
            \E b \in Pick({"g", "h", "X"} \cup {f2 \in FieldsOf(r) : FieldType(g.msg[r], f2) = "P"}), rs \in Pick(Responses(g.msg[r].t)), sign \in Pick({"s_add", "s_sub"}) :
            (rs # <<>> \/ sign = "s_add") /\ Perform(<<[t |-> "shift", m |-> r, f |-> f, b |-> b, rs |-> rs, sign |-> sign]>>)
    \/ "shift" \in Acts /\ \E r \in Pick(FirstOfType(Target)) : Perform(<<[t |-> "unscale", m |-> r]>>)
    \/ "flip" \in Acts /\ \E r \in Pick(Target) : \E b \in {RandomBit(Bits[g.msg[r].t])} :
            Perform(<<[t |-> "flip", m |-> r, bit |-> b]>>)

Advance ==
    /\ ops # <<>> /\ ~done /\ steps < MaxSteps
    /\ OneStep
    /\ steps' = steps + 1 /\ UNCHANGED done

(* In the end, messages are given to those who might accept them.          *)
Bad == {m \in DOMAIN g.msg : g.msg[m].bad}
\* The same again and again, with everything issued anew from time to time
Endure(xs) ==
    LET n == Len(xs) IN
    IF n = 0 THEN <<>>
    ELSE FoldLeft(LAMBDA a, j :
            LET x == xs[1 + (j % n)] u == g.usr[x[1]] m == "mE" \o ToString(j) e == "eE" \o ToString(j) IN
            a \o (IF j % 9 = 8 /\ u.cred # <<>> THEN <<IssueA(m, x[3], CHOOSE y \in Nums : g.num[y] = u.cred[2]), FinA(x[1], m)>> ELSE <<>>)
              \o (IF j % 9 = 4 /\ u.kind = "Usr" THEN <<RosA(e, CHOOSE y \in Nums : g.num[y] = u.num, u.prm), [t |-> "use", u |-> x[1], e |-> e, i |-> x[3]]>>
                  ELSE <<[t |-> "use", u |-> x[1], e |-> x[2], i |-> x[3]]>>), <<>>, [j \in 1..Endurance |-> j])
LastSteps ==
    LET M == Msgs({"pres", "apres"})
        X == Issuers \X M
        V == {x \in X : g.msg[x[2]].t = "pres"} \cup (Issuers \X Msgs({"ver"}))
        S(a) == SetToSeq(a)
    IN  (IF "ver" \in Final THEN S({[t |-> "ver", i |-> x[1], m |-> x[2]] : x \in PickSome(20, X)}) ELSE <<>>)
        \o (IF "aver" \in Final THEN S({[t |-> "aver", i |-> x[1], m |-> x[2], n |-> y] : x \in PickSome(2, {x \in X : g.msg[x[2]].t = "apres"}), y \in {0, 2, 3}}) ELSE <<>>)
        \o (IF "verx" \in Final THEN S({[t |-> "verx", i |-> x[1][1], m |-> x[1][2], b |-> x[2], s |-> x[3]] : x \in PickSome(12, X \X BlindedHows \X RevealedHows)}) ELSE <<>>)
        \o (IF "vros" \in Final THEN S({[t |-> "vros", i |-> x[1], m |-> x[2]] : x \in PickSome(20, V)}) ELSE <<>>)
        \o (IF "bad" \in Final THEN S({[t |-> "ver", i |-> x[1], m |-> x[2]] : x \in PickSome(4, Issuers \X {m \in Bad : g.msg[m].t # "iss"})}
                                        \cup {[t |-> "vros", i |-> x[1], m |-> x[2]] : x \in PickSome(4, Issuers \X {m \in Bad : g.msg[m].t \in {"pres", "ver"}})}
                                        \cup {[t |-> "fin", u |-> x[1], m |-> x[2]] : x \in PickSome(4, Users \X {m \in Bad : g.msg[m].t = "iss"})}) ELSE <<>>)
        \o (IF "fin" \in Final THEN S({[t |-> "fin", u |-> x[1], m |-> x[2]] : x \in PickSome(20, Users \X Msgs({"iss"}))}) ELSE <<>>)
        \o (IF "finx" \in Final THEN S({[t |-> "finx", u |-> x[1], m |-> x[2], how |-> x[3]] :
                                            x \in PickSome(8, {u \in Users : g.usr[u].kind = "Usr"} \X Msgs({"iss"}) \X AttrsHows)}) ELSE <<>>)
        \o (IF "use" \in Final THEN S({[t |-> "use", u |-> x[1], e |-> x[2], i |-> x[3]] : x \in PickSome(6, Users \X Entries \X Issuers)}) ELSE <<>>)
        \o (IF "useall" \in Final THEN S({[t |-> "use", u |-> x[1], e |-> x[2], i |-> x[3]] : x \in Users \X Entries \X Issuers}) ELSE <<>>)
        \o (IF "own" \in Final THEN S({[t |-> "use", u |-> x[1], e |-> x[2], i |-> x[3]] :
                    x \in {x \in {u \in Users : g.usr[u].cred # <<>>} \X Entries \X Issuers : g.usr[x[1]].pk = g.iss[x[3]] /\ x[2] \in OwnEntries(x[1])}}) ELSE <<>>)
        \o (IF "endure" \in Final THEN Endure(S({x \in {u \in Users : g.usr[u].cred # <<>>} \X Entries \X Issuers : g.usr[x[1]].pk = g.iss[x[3]] /\ x[2] \in OwnEntries(x[1])})) ELSE <<>>)

Finish ==
    /\ ops # <<>> /\ ~done /\ (Sim => steps = MaxSteps)
    /\ \E s \in {LastSteps} : Perform(s)
    /\ done' = TRUE /\ UNCHANGED steps

Next == (Setup) \/ Advance \/ Finish
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* C01 to C04, C14: everything turns out as it ought to.
Agree == \A i \in 1..Len(hist) : pred[i] # "?" => hist[i].ok = (pred[i] = "ok")

\* C04, C14: the credential of a user is exactly the one last accepted, if any.
Exact == \A u \in Users : LET c == st.env[u].cred x == g.usr[u].cred IN
            /\ (c = <<>>) = (x = <<>>)
            /\ x # <<>> => LET m == st.env[x[1]] IN c[1] = Fld(m, "P") /\ c[2] = Fld(m, "Q")
\* C03: the commitment returned is the one presented.
Returned == \A i \in 1..Len(hist) : hist[i].e.op = "vros" /\ hist[i].ok => hist[i].out.v = Fld(hist[i].in[2], "E")
\* C01: what honest parties do for each other succeeds.
Honest == (Acts \subseteq {"issue", "honestfin", "honestshow", "ros", "sav", "savusr", "copy"} /\ Final \subseteq {"own", "endure"}) =>
            \A i \in 1..Len(hist) : hist[i].ok
\* C14: saving and restoring changes nothing.
SavedEqual == \A i \in 1..Len(hist) : hist[i].e.op = "sav" => hist[i].ok /\ hist[i].in[1] = hist[i].out
=============================================================================
