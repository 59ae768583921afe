------------------------------ MODULE PhoneModel ------------------------------
(* Two phone numbers, dialled digit by digit and edited; how they are mapped *)
(* to scalars; and strings, bytes and scalars that are not phone numbers.    *)
EXTENDS Phone, Json, Randomization, SequencesExt

CONSTANTS Sim, Alphabet, MaxLen, Shape

VARIABLES a, b, junk, done
vars == <<a, b, junk, done>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

Init == a = <<>> /\ b = <<>> /\ junk = <<>> /\ done = FALSE
Room(x) == Len(x) < MaxLen /\ ~done

\* All numbers up to a length; or of every length, of few shapes.
Dial == /\ Room(a) /\ junk = <<>>
        /\ \E d \in Pick(IF Shape = "runs" /\ Len(a) > 1 THEN (IF a[Len(a)] = a[1] THEN Alphabet ELSE {a[Len(a)]}) ELSE Alphabet) : a' = Append(a, d)
        /\ b' = a /\ UNCHANGED <<junk, done>>
\* Many digits at once (in simulations only)
DialOn == /\ Sim /\ Room(a) /\ junk = <<>>
          /\ \E x \in {[i \in 1..RandomElement(1..12) |-> RandomElement(Alphabet)]} : a' = a \o x /\ b' = SubSeq(a', 1, Len(a') - 1)
          /\ UNCHANGED <<junk, done>>
\* The other number differs a little: a digit more, less, or other, at either end or inside.
Edit ==
    /\ ~done /\ a # <<>> /\ b = SubSeq(a, 1, Len(a) - 1) /\ junk = <<>> /\ Shape # "all"
    /\ \E k \in Pick({"front", "end", "put", "cut", "swap", "rev"}) :
       \E i \in Pick(1..Len(a)) : \E d \in Pick(Alphabet) :
       b' = CASE k = "front" -> <<d>> \o a
              [] k = "end" -> Append(a, d)
              [] k = "put" -> [a EXCEPT ![i] = d]
              [] k = "cut" -> RemoveAt(a, i)
              [] k = "swap" -> [a EXCEPT ![i] = a[(i % Len(a)) + 1], ![(i % Len(a)) + 1] = a[i]]
              [] k = "rev" -> Reverse(a)
    /\ UNCHANGED <<a, junk, done>>
\* Something that is no phone number
Odd == {47, 58, 57, 32, 43, 45, 46, 40, 0, 9, 10, 13, 65, 97, 127, 128, 233, 255, 1632, 65296, 8364, 128512, 63, 64, 15, 176, 185}
BadByte == {10, 15, 47, 48, 57, 58, 127, 128, 255, 16, 31, 32}
Uniform == Sim \/ \A i \in 1..Len(a) : a[i] = a[1]
Spoil ==
    /\ ~done /\ junk = <<>> /\ Shape # "all" /\ b = SubSeq(a, 1, Len(a) - 1) /\ Uniform
    /\ \E k \in Pick({"str", "bytes", "scalar", "rnd", "len"}) :
       \E i \in Pick(IF Sim THEN 0..Len(a) ELSE {0, 1, Len(a)} \cap 0..Len(a)) :
       LET put(x, v) == IF i = 0 THEN <<v>> \o x ELSE [x EXCEPT ![i] = v] IN
       CASE k = "str" -> \E v \in Pick(Odd) : junk' = <<[op |-> "str", v |-> put(Numeral(a), v)]>>
         [] k = "bytes" -> \E v \in Pick(BadByte) : junk' = <<[op |-> "bytes", v |-> put(a, v)]>>
         [] k = "scalar" -> /\ Len(a) <= MaxDigits
                            /\ \E j \in Pick(1..32) : \E v \in Pick({0, 1, 9, 10, 15, 16, 26, 27, 28, 29, 30, 31, 48, 127, 255}) :
                                  junk' = <<[op |-> "scalar", v |-> [Layout(a) EXCEPT ![j] = v]]>>
         [] k = "rnd" -> (Sim \/ a = <<>>) /\ \E j \in Pick(0..31) : \E v \in Pick({0, 1, 10, 15, 26, 27, 28, 29, 31, 47, 255}) : \E w \in Pick({0, 5, 9, 12, 255}) :
                             junk' = <<[op |-> "scalar", v |-> [x \in 1..32 |-> IF x - 1 < j THEN w ELSE IF x - 1 = j THEN v ELSE 0]]>>
         [] k = "len" -> (Sim \/ a = <<>>) /\ \E j \in Pick({27, 28, 29, 30, 31, 32, 33, 40, 64, 255, 256, 257, 282, 283, 1000, 65536, 65537}) :
                             \E d \in Pick(Alphabet) : \E s \in {"str", "bytes"} : junk' = <<[op |-> s, v |-> [x \in 1..j |-> IF s = "str" THEN d + 48 ELSE d]]>>
    /\ UNCHANGED <<a, b, done>>
\* Any scalar's worth of random bytes, or any string
Wild ==
    /\ Sim /\ ~done /\ junk = <<>>
    /\ \E v \in {[x \in 1..32 |-> RandomElement(0..255)]} : \E k \in {RandomElement({"scalar", "bytes", "str"})} : \E n \in {RandomElement(0..32)} :
          junk' = <<[op |-> k, v |-> IF k = "scalar" THEN v ELSE SubSeq(v, 1, n)]>>
    /\ UNCHANGED <<a, b, done>>
Finish == ~done /\ (Sim => a # <<>> \/ junk # <<>>) /\ done' = TRUE /\ UNCHANGED <<a, b, junk>>
Next == Dial \/ DialOn \/ Edit \/ Spoil \/ Wild \/ Finish
Spec == Init /\ [][Next]_vars

\* C11, of the layout
Distinct == IsNumber(a) /\ IsNumber(b) => (Layout(a) = Layout(b)) = (a = b)
Fits == IsNumber(a) => Len(Layout(a)) = 32 /\ Canonical(Layout(a))
Reversible == IsNumber(a) => Reading(Layout(a)) = {a}
Unique == junk # <<>> /\ junk[1].op = "scalar" => Cardinality(Reading(junk[1].v)) <= 1 /\ \A d \in Reading(junk[1].v) : Layout(d) = junk[1].v

Emit == done /\ (a # <<>> \/ junk # <<>>) =>
    PrintT("SCENARIO " \o ToJson([ops |-> (IF a # <<>> THEN <<[op |-> "number", v |-> a]>> ELSE <<>>)
                                          \o (IF b # a /\ b # <<>> /\ Shape # "all" THEN <<[op |-> "number", v |-> b]>> ELSE <<>>) \o junk]))
=============================================================================
