-------------------------------- MODULE Bulk --------------------------------
(* Thousands of independent repetitions of what the other modules specify   *)
(* in detail, for deviations that happen only now and then: for some values *)
(* of keys, nonces or challenges, after some number of operations, or in    *)
(* parties that live long.  The state counts what each trial of a batch may *)
(* come to; everything is symmetric in the trials, so that it suffices to   *)
(* say of each step, and each change that is made before it, what is then   *)
(* the outcome.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* What a trial of a kind consists of: steps that nobody interferes with
Steps == [honest |-> {"issue", "accept", "open", "show", "verify", "member"},
          altered |-> {"issue", "accept", "open", "show", "verify", "member"},
          refused |-> {"issue", "accept"},
          mac |-> {"mac", "check", "recheck"},
          elgamal |-> {"decrypt", "form"},
          phone |-> {"number"},
          entry |-> {"open"},
          proof |-> {"proof"},
          keys |-> {"parameters", "keypair", "elgamal"},
          bits |-> {"issue", "accept", "decode"}]
\* ... and what may happen to what a step is about, beforehand
Alterations == {"bit", "zero", "next", "shifted", "moved", "old", "transplanted"}
Changes(s) ==
    CASE s = "verify" -> Alterations \cup {"other issuer"}
      [] s = "member" -> Alterations \cup {"other number"}
      [] s = "accept" -> Alterations \cup {"other issuer", "other number"}
      [] s = "check" -> {"bit", "next", "other", "negated", "other key", "longer"}
      [] s = "decrypt" -> {"sum", "other key"}
      [] s = "number" -> {"long"}
      [] s = "open" -> {"bit", "other number", "other value", "other basepoint"}
      [] s = "proof" -> {"bit", "shifted", "context", "false"}
      [] s \in {"parameters", "keypair"} -> {"again"}
      [] OTHER -> {}
Types == {"issuance", "presentation", "verified", "entry", "user", "issuer", "mackey", "tag", "elgamal", "number", "parameters", "keypair"}
\* The sum of ciphertexts is one of the sum; and from the same state of the generator there comes the same again.
Harmless(s, ch) == ch = "none" \/ (s = "decrypt" /\ ch = "sum") \/ ch = "again"
Outcomes(s, ch) ==
    IF s = "restore" /\ ch \in Types THEN {"ok"}                \* the same, in all encodings
    ELSE IF s = "decode" /\ ch \in Types THEN {"ok", "err"}     \* ("odd": an object for which there are other bytes)
    ELSE IF ch = "none" \/ (ch \in Changes(s) /\ Harmless(s, ch)) THEN {"ok"}
    ELSE IF ch \in Changes(s) THEN {"err"}                      \* ("odd": refused, but something has changed)
    ELSE {}
=============================================================================
