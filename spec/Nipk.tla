-------------------------------- MODULE Nipk --------------------------------
(* The statements of the five non-interactive proofs of knowledge: what    *)
(* each one proves, as data.  The transcript of a proof is, in this order, *)
(* the name of the statement, its publics, and its commitments, one per    *)
(* equation; responses are one per secret.                                 *)
EXTENDS Integers, Sequences, FiniteSets

Eq(lhs, terms) == [lhs |-> lhs, terms |-> terms]

Statements == <<
    [name    |-> "issuance_revealed",
     secrets |-> <<"x0", "x1", "x0_tilde", "m1x1">>,
     publics |-> <<"P", "Q", "Cx0", "B", "A", "X1">>,
     eqs     |-> << Eq("Q",   << <<"x0", "P">>, <<"m1x1", "P">> >>),
                    Eq("Cx0", << <<"x0", "B">>, <<"x0_tilde", "A">> >>),
                    Eq("X1",  << <<"x1", "A">> >>) >>],
    [name    |-> "attributes_blinded",
     secrets |-> <<"d", "e0", "m0", "nonce">>,
     publics |-> <<"B", "A", "D", "encrypted_attribute_0_0", "encrypted_attribute_0_1">>,
     eqs     |-> << Eq("D", << <<"d", "B">> >>),
                    Eq("encrypted_attribute_0_0", << <<"e0", "B">> >>),
                    Eq("encrypted_attribute_0_1", << <<"m0", "B">>, <<"e0", "D">> >>) >>],
    [name    |-> "issuance_blinded",
     secrets |-> <<"x0_tilde", "x0", "x1", "s", "b", "t0">>,
     publics |-> <<"B", "A", "X0", "X1", "D", "P", "T0_0", "T0_1", "EQ_commitment", "EQ_encryption",
                   "encrypted_attribute_0_0", "encrypted_attribute_0_1">>,
     eqs     |-> << Eq("X0", << <<"x0", "B">>, <<"x0_tilde", "A">> >>),
                    Eq("X1", << <<"x1", "A">> >>),
                    Eq("P",  << <<"b", "B">> >>),
                    Eq("T0_0", << <<"b", "X0">> >>),
                    Eq("T0_1", << <<"t0", "A">> >>),
                    Eq("EQ_commitment", << <<"s", "B">>, <<"t0", "encrypted_attribute_0_0">> >>),
                    Eq("EQ_encryption", << <<"s", "D">>, <<"t0", "encrypted_attribute_0_1">> >>) >>],
    [name    |-> "valid_credential",
     secrets |-> <<"m0", "z0", "minus_zQ">>,
     publics |-> <<"B", "A", "X0", "P", "V", "Cm0">>,
     eqs     |-> << Eq("Cm0", << <<"m0", "P">>, <<"z0", "A">> >>),
                    Eq("V",   << <<"z0", "X0">>, <<"minus_zQ", "A">> >>) >>],
    [name    |-> "committed_values_equal",
     secrets |-> <<"m0", "z0", "z1">>,
     publics |-> <<"B", "A", "P", "Cm0", "Cm1">>,
     eqs     |-> << Eq("Cm0", << <<"m0", "P">>, <<"z0", "A">> >>),
                    Eq("Cm1", << <<"m0", "A">>, <<"z1", "B">> >>) >>] >>

Kinds == {Statements[i].name : i \in 1..Len(Statements)}
Stmt == [k \in Kinds |-> CHOOSE s \in {Statements[i] : i \in 1..Len(Statements)} : s.name = k]

IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

\* The equations with indices in place of names: <<left-hand side, << <<secret, public>>, ... >> >>
Equations == [k \in Kinds |->
    [e \in 1..Len(Stmt[k].eqs) |->
        << IndexOf(Stmt[k].publics, Stmt[k].eqs[e].lhs),
           [t \in 1..Len(Stmt[k].eqs[e].terms) |->
               << IndexOf(Stmt[k].secrets, Stmt[k].eqs[e].terms[t][1]),
                  IndexOf(Stmt[k].publics, Stmt[k].eqs[e].terms[t][2]) >>] >>]]

NSecrets(k) == Len(Stmt[k].secrets)
NPublics(k) == Len(Stmt[k].publics)
\* Secrets that occur in an equation.  (The others are never proved.)
UsedSecrets(k) == UNION {{Equations[k][e][2][t][1] : t \in 1..Len(Equations[k][e][2])} : e \in 1..Len(Equations[k])}
=============================================================================
