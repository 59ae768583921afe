-------------------------------- MODULE Wire --------------------------------
(* The wire formats: what byte strings stand for which objects.            *)
(*                                                                         *)
(* Every type is a sequence of slots: points (P) and scalars (S), of 32    *)
(* bytes each, and lengths (L), of eight bytes, before each scalar of a    *)
(* proof.  A byte string stands for an object if it has the length of the  *)
(* slots, every slot holds what it ought to, in its only canonical form,   *)
(* and system parameters are two different generators.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rep(n, s) == [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]
ProofOf(n) == Rep(n, <<"L", "S">>)                          \* challenge and responses: n scalars
PairOf(n) == Rep(n, <<"P">>) \o Rep(n + 1, <<"S">>)         \* an aMAC keypair for n attributes
TwoP == <<"P", "P">>

\* Slots of a type; n is the number of repetitions, for those that have any
Slots(t, n) ==
    CASE t = "Tag" -> TwoP
      [] t = "MacPublicKey" -> Rep(n, <<"P">>)
      [] t = "MacSecretKey" -> Rep(n, <<"S">>)
      [] t = "MacKeypair" -> PairOf(n)
      [] t = "Credential" -> TwoP \o <<"S">>
      [] t = "CredentialRequest" -> Rep(n, <<"S">>)
      [] t = "CredentialIssuance" -> <<"P">> \o TwoP \o <<"S">> \o ProofOf(5)
      [] t \in {"CredentialPresentation", "VerifiedCredential"} -> <<"P", "P", "P">> \o ProofOf(4)
      [] t = "ElgamalPublicKey" -> <<"P">>
      [] t = "ElgamalSecretKey" -> <<"S">>
      [] t = "ElgamalKeypair" -> <<"S", "P">>
      [] t = "SystemParameters" -> TwoP
      [] t = "Commitment" -> <<"P">>
      [] t \in {"Issuer", "SignalIssuer"} -> TwoP \o PairOf(n)
      [] t = "User" -> TwoP \o <<"P">> \o <<"S", "P">> \o <<"P", "P", "S">>
      [] t = "SignalUser" -> <<"S">> \o TwoP \o <<"P">> \o <<"S", "P">> \o <<"P", "P", "S">>
      [] t = "PhoneNumber" -> <<"S">>
      [] t = "CommittedPhoneNumber" -> <<"P">>
      [] t = "RosterEntryCommitment" -> <<"P", "S">>
      [] t \in {"SignalCredentialPresentation", "VerifiedSignalCredential"} -> <<"P">> \o <<"P", "P", "P">> \o ProofOf(4) \o ProofOf(4)

Types == {"Tag", "MacPublicKey", "MacSecretKey", "MacKeypair", "Credential", "CredentialRequest", "CredentialIssuance",
          "CredentialPresentation", "VerifiedCredential", "ElgamalPublicKey", "ElgamalSecretKey", "ElgamalKeypair",
          "SystemParameters", "Commitment", "Issuer", "SignalIssuer", "User", "SignalUser", "PhoneNumber",
          "CommittedPhoneNumber", "RosterEntryCommitment", "SignalCredentialPresentation", "VerifiedSignalCredential"}
Repeating == {"MacPublicKey", "MacSecretKey", "MacKeypair", "CredentialRequest", "Issuer", "SignalIssuer"}
LeastN(t) == IF t = "CredentialRequest" THEN 0 ELSE 1

Width(k) == IF k = "L" THEN 8 ELSE 32
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE Width(Head(s)) + Size(Tail(s))

\* The documented sizes
ASSUME /\ Size(Slots("CredentialIssuance", 0)) = 328 /\ Size(Slots("CredentialPresentation", 0)) = 256
       /\ Size(Slots("SignalCredentialPresentation", 0)) = 448 /\ Size(Slots("User", 0)) = 256
       /\ Size(Slots("SignalUser", 0)) = 288 /\ Size(Slots("SystemParameters", 0)) = 64 /\ Size(Slots("Issuer", 1)) = 160
       /\ Size(Slots("Credential", 0)) = 96 /\ Size(Slots("Tag", 0)) = 64 /\ Size(Slots("RosterEntryCommitment", 0)) = 64

\* What is missing is written as zeros.
Optional(t) == CASE t = "User" -> {<<4, 5>>, <<6, 8>>} [] t = "SignalUser" -> {<<5, 6>>, <<7, 9>>} [] OTHER -> {}
\* Where the system parameters are
ParamsAt(t) == CASE t \in {"SystemParameters", "Issuer", "SignalIssuer", "User"} -> 1 [] t = "SignalUser" -> 2 [] OTHER -> 0

\* How often the part of a type repeats that a byte string of this length stands for; -1 if there is none
Repetitions(t, len) ==
    IF t \notin Repeating THEN IF Size(Slots(t, 0)) = len THEN 0 ELSE -1
    ELSE LET one == Size(Slots(t, 1)) - Size(Slots(t, 0))
             n == (len - Size(Slots(t, 0))) \div one
         IN  IF len >= Size(Slots(t, 0)) /\ (len - Size(Slots(t, 0))) % one = 0 /\ n >= LeastN(t) THEN n ELSE -1

(***************************************************************************)
(* A view of a byte string, slot by slot: view[i] is                       *)
(* [id: which value it is; good: it is the canonical form of such a value; *)
(* zero: all of its bytes are].                                            *)
(***************************************************************************)
Absent(t, view) == {o \in Optional(t) : \A i \in o[1]..o[2] : view[i].zero}
AbsentSlots(t, view) == UNION {o[1]..o[2] : o \in Absent(t, view)}

Stands(t, view) ==
    /\ \A i \in 1..Len(view) : view[i].good
    /\ ParamsAt(t) # 0 => LET g == view[ParamsAt(t)] h == view[ParamsAt(t) + 1] IN ~g.zero /\ ~h.zero /\ g.id # h.id

\* The fields of the object, in order, of which a missing one has none
Fields(t, kinds, view) ==
    LET keep == SelectSeq([i \in 1..Len(view) |-> i], LAMBDA i : kinds[i] # "L" /\ i \notin AbsentSlots(t, view))
    IN  [j \in 1..Len(keep) |-> view[keep[j]].id]

\* The slots of an object again: its fields, in order, with the lengths and zeros where they belong
RECURSIVE Layout(_, _, _, _, _, _)
Layout(t, kinds, absent, fields, zero, i) ==
    IF i > Len(kinds) THEN <<>>
    ELSE IF kinds[i] = "L" THEN <<"L32">> \o Layout(t, kinds, absent, fields, zero, i + 1)
    ELSE IF i \in absent THEN <<zero>> \o Layout(t, kinds, absent, fields, zero, i + 1)
    ELSE <<Head(fields)>> \o Layout(t, kinds, absent, Tail(fields), zero, i + 1)
=============================================================================
