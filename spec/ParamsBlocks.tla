---------------------------- MODULE ParamsBlocks ----------------------------
(* What a random number generator may yield, 32 bytes at a time, as far as *)
(* it matters: encodings of points, of two points in particular, and what  *)
(* encodes none.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Encodings of points that may be a second generator ..
Good == {"point1", "point2", "point3", "multiple0", "multiple1", "multiple5", "opposite"}
\* .. of those that may not, ..
Trivial == {"base", "identity"}
\* .. and of none: encodings of points with a bit more, or negated, or the like, numbers that are too large, noise
None == {"high1", "high2", "basehigh", "zerohigh", "negative1", "negative2", "baseneg", "odd1", "baseodd", "one", "ones",
         "large0", "large1", "large2", "large9", "nopoint1", "nopoint2", "nopoint3"}
Blocks == Good \cup Trivial \cup None

\* The place of the first suitable block, or 0
FirstGood(s) == IF \E i \in 1..Len(s) : s[i] \in Good THEN CHOOSE i \in 1..Len(s) : s[i] \in Good /\ \A j \in 1..(i - 1) : s[j] \notin Good ELSE 0

\* The functions that draw secrets, and how many they draw
Kinds == {"key", "keypair", "issuer", "sissuer", "esk", "ekeypair", "eph", "nonces", "rer"}
Secrets(k, n) == CASE k = "key" -> n + 1
                   [] k \in {"keypair", "issuer", "sissuer"} -> 2
                   [] k = "nonces" -> n
                   [] k \in {"issue", "ashow"} -> 2
                   [] k = "show" -> 3
                   [] OTHER -> 1
\* .. and those that draw random numbers for messages
Senders == {"ros", "mac", "issue", "show", "ashow"}
=============================================================================
