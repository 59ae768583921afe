-------------------------------- MODULE Phone --------------------------------
(* Phone numbers and the scalars they are mapped to, byte for byte: 15, 15, *)
(* the number, 15, 15, how long the number is, and zeros, which is a number *)
(* in little-endian order.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxDigits == 26
Digit == 0..9
IsNumber(d) == Len(d) \in 1..MaxDigits /\ \A i \in 1..Len(d) : d[i] \in Digit

Layout(d) == <<15, 15>> \o d \o <<15, 15, Len(d)>> \o [i \in 1..(27 - Len(d)) |-> 0]

\* The same, of a string of characters
IsNumeral(s) == Len(s) \in 1..MaxDigits /\ \A i \in 1..Len(s) : s[i] \in 48..57
Digits(s) == [i \in 1..Len(s) |-> s[i] - 48]
Numeral(d) == [i \in 1..Len(d) |-> d[i] + 48]

\* The order of the group of scalars is 2^252 + 27742317777372353535851937790883648493, as bytes
Order == <<237, 211, 245, 92, 26, 99, 18, 88, 214, 156, 247, 162, 222, 249, 222, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 16>>
\* b is less than the order (both in little-endian order)
Canonical(b) == \E i \in 1..32 : b[i] < Order[i] /\ \A j \in (i + 1)..32 : b[j] = Order[j]

\* Which number a scalar stands for, found without Layout: {} or a single one
Lengths(b) == {n \in 1..MaxDigits : b[n + 5] = n /\ \A i \in (n + 6)..32 : b[i] = 0}
Reading(b) ==
    {[i \in 1..n |-> b[i + 2]] : n \in {n \in Lengths(b) : /\ b[1] = 15 /\ b[2] = 15 /\ b[n + 3] = 15 /\ b[n + 4] = 15
                                                           /\ \A i \in 1..n : b[i + 2] \in Digit}}
=============================================================================
