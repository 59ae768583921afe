--------------------------------- MODULE Api ---------------------------------
(* The C API and the JavaScript API: functions from byte strings to byte     *)
(* strings.  What a byte string holds is described by how it was made; the   *)
(* semantics says which calls succeed, what the result holds, and how long   *)
(* it is.  Objects that hold something else (say, a single flipped bit) are  *)
(* "junk", of which only the library knows what it makes of them.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Signature == [
    system_parameters_create |-> <<"seed">>,
    issuer_create |-> <<"params", "seed">>,
    issuer_new |-> <<"params", "keypair">>,
    issuer_get_issuer_parameters |-> <<"issuer">>,
    issuer_issue |-> <<"issuer", "number", "seed">>,
    issuer_verify |-> <<"issuer", "pres">>,
    issuer_verify_roster_membership |-> <<"issuer", "verified">>,
    user_obtain_finish |-> <<"number", "params", "ipar", "issuance">>,
    user_show |-> <<"user", "entry", "seed">>,
    roster_entry_commitment_create |-> <<"number", "params", "seed">>,
    roster_entry_commitment_remove_opening |-> <<"entry">>,
    roster_entry_commitment_open |-> <<"entry", "number", "params">>]
Functions == DOMAIN Signature
Result == [
    system_parameters_create |-> "params", issuer_create |-> "keypair", issuer_new |-> "issuer",
    issuer_get_issuer_parameters |-> "ipar", issuer_issue |-> "issuance", issuer_verify |-> "verified",
    issuer_verify_roster_membership |-> "roster", user_obtain_finish |-> "user", user_show |-> "pres",
    roster_entry_commitment_create |-> "entry", roster_entry_commitment_remove_opening |-> "roster", roster_entry_commitment_open |-> "yes"]
Lengths == [params |-> 64, keypair |-> 96, issuer |-> 160, ipar |-> 32, issuance |-> 328, pres |-> 448, verified |-> 448,
            roster |-> 32, user |-> 288, entry |-> 64, yes |-> 1]
Random == {"issuer_issue", "user_show"}     \* contain proofs, which are never the same twice

Numbers == {"n1", "n2", "n3", "long", "max"}
Seeds == {"s1", "s2", "s3", "s4"}
TooLong(n) == n = "long"

Junk(k, n) == [k |-> k, junk |-> n]
IsJunk(t) == "junk" \in DOMAIN t
Plain(k, a) == [k |-> k, a |-> a]

\* Whether a call of f with what the arguments hold succeeds: "ok", "err", or "?" if only the library knows.
Succeeds(f, a) ==
    IF \E i \in DOMAIN a : IsJunk(a[i]) THEN "?"
    ELSE LET yes(c) == IF c THEN "ok" ELSE "err" IN
    CASE f \in {"issuer_issue", "roster_entry_commitment_create"} -> yes(\A i \in DOMAIN a : a[i].k = "number" => ~TooLong(a[i].a[1]))
      [] f = "issuer_verify" ->      \* shown from a credential that this issuer issued
            yes(a[2].a[1].a[4].a[1] = a[1])
      [] f = "issuer_verify_roster_membership" ->
            LET p == a[2].a[1] u == p.a[1] e == p.a[2] IN
            yes(u.a[1] = e.a[1] /\ u.a[2] = e.a[2] /\ a[1].a[1] = u.a[2])
      [] f = "user_obtain_finish" ->
            LET i == a[4].a[1] k == i.a[2] IN
            yes(a[4].a[2] = a[1] /\ a[2] = i.a[1] /\ k.a[1] = i.a[1] /\ a[3].a[1] = k)
      [] f = "roster_entry_commitment_open" -> yes(a[1].a[1] = a[2] /\ a[1].a[2] = a[3])
      [] OTHER -> "ok"

\* What the result holds; n is different in every call
Holds(f, a, n) ==
    CASE f = "issuer_get_issuer_parameters" -> Plain("ipar", <<a[1].a[2]>>)
      [] f = "issuer_verify" -> Plain("verified", <<a[2]>>)
      [] f = "issuer_verify_roster_membership" -> Plain("roster", <<a[2].a[1].a[2]>>)
      [] f = "roster_entry_commitment_remove_opening" -> Plain("roster", <<a[1]>>)
      [] OTHER -> Plain(Result[f], a \o (IF f \in Random THEN <<n>> ELSE <<>>))

\* The byte strings of a presentation and of the verified credential it yields are the same; and of an issuance,
\* a user keeps what was issued, but not the proof, in which alone two issuances with one seed differ.
Content(t) == IF IsJunk(t) THEN t
              ELSE CASE t.k = "verified" -> t.a[1]
                     [] t.k = "user" /\ ~IsJunk(t.a[4]) -> [t EXCEPT !.a[4].a = SubSeq(@, 1, Len(@) - 1)]
                     [] OTHER -> t
=============================================================================
