---------------------------- MODULE ErasureTypes ----------------------------
(* The types of values that own secrets, and what they own                  *)
EXTENDS Integers, Sequences, FiniteSets

AllTypes == {"key", "keypair", "issuer", "sissuer", "eph", "nonces", "rer", "esk", "ekeypair", "user", "suser", "roster"}
Sized == {"key", "keypair", "nonces"}
Clonable == {"key", "keypair", "nonces", "eph", "rer", "esk", "ekeypair"}
\* How many secret scalars: an issuer has a key for one attribute, which is two; a user that of its ElGamal keypair; an
\* entry of a roster the opening of its commitment.
Cells(t, n) == CASE t \in {"key", "keypair"} -> n + 1
                 [] t \in {"issuer", "sissuer"} -> 2
                 [] t = "nonces" -> n
                 [] OTHER -> 1
Sources(t) == IF t \in {"nonces", "rer"} THEN {"new"} ELSE {"new", "bytes"}
AllWays == {"box", "place", "scope", "unwind", "thread", "rc", "arc", "vec", "slice", "iter", "truncate", "clear", "drain", "deque",
            "map", "option", "none", "tuple", "result", "closure"}
\* Where the place of the value itself is used for something else afterwards, only the memory that it owns elsewhere is looked at.
Vague == {"none"}
=============================================================================
