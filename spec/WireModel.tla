------------------------------ MODULE WireModel ------------------------------
(* Byte strings, described by the classes of values in their slots, and by *)
(* what else is wrong with them; and what a decoder has to say to each.    *)
EXTENDS Wire, Json, Randomization

CONSTANTS Sim, MaxDefects, MaxN, TestTypes,
          Large,         \* further numbers of repetitions
          MaxNear        \* how many byte strings that are almost the same are decoded right after it

VARIABLES t, n,          \* the type and its repetitions
          kinds,         \* its slots
          shape,         \* what points, and what scalars, look like
          cells,         \* the class of the value in every slot
          mods,          \* further changes, to the bytes
          wrap,          \* how it is wrapped: "" for every way that is right
          defects,
          near,          \* changes to it, one at a time; what was decoded before must not matter
          done
vars == <<t, n, kinds, shape, cells, mods, wrap, defects, near, done>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

GoodP == {"id", "B"}
GoodS == {"0", "1", "l-1", "2^252"}
BadP == {"nc0", "nc+", "neg", "ns", "hi", "ff"}
BadS == {"l", "l+1", "l+s", "2l", "hi", "ff"}
BadL == {"L0", "L31", "L33", "L2^32+32", "L2^63", "Lmax", "L8192", "L40", "L24"}
Zero(c) == c \in {"id", "0", "L0", "z"}
\* Values with certain bytes (":i=b": byte i is b; ":lo", ":hi": only the lower, or only the upper, 16 bytes are not zero)
PointShapes == {"", ":0=0", ":31=0", ":1=255"}
ScalarShapes == {"", ":0=0", ":31=0", ":0=32", ":lo", ":hi"}
Shaped(k, i, sh) == IF k = "L" THEN "L32" ELSE (IF k = "P" THEN "p" ELSE "s") \o ToString(i) \o (IF k = "P" THEN sh[1] ELSE sh[2])
Plain(k, i) == Shaped(k, i, <<"", "">>)
GoodOf(k) == IF k = "P" THEN GoodP ELSE IF k = "S" THEN GoodS ELSE {}
BadOf(k) == IF k = "P" THEN BadP ELSE IF k = "S" THEN BadS ELSE BadL

View == [i \in 1..Len(cells) |-> [id |-> IF Zero(cells[i]) THEN "z" ELSE cells[i], zero |-> Zero(cells[i]),
                                  good |-> cells[i] \notin BadOf(kinds[i])]]
\* What a decoder has to say, as far as it is known beforehand
Expected == IF wrap # "" THEN "err"
            ELSE IF mods # <<>> THEN "?"
            ELSE IF Stands(t, View) THEN "ok" ELSE "err"

Plainly(k, sh) == [i \in 1..Len(k) |-> Shaped(k[i], i, sh)]
Without(tt, c, o) == [i \in 1..Len(c) |-> IF \E x \in o : i \in x[1]..x[2] THEN (IF Slots(tt, 0)[i] = "P" THEN "id" ELSE "0") ELSE c[i]]

Init ==
    /\ t \in TestTypes
    /\ n \in IF t \notin Repeating THEN {0} ELSE IF Large # {} THEN Large ELSE 0..MaxN
    /\ kinds = Slots(t, n)
    /\ shape \in IF Large # {} THEN {<<"", "">>} ELSE PointShapes \X ScalarShapes
    /\ \E o \in SUBSET Optional(t) : cells = Without(t, Plainly(kinds, shape), o)
    /\ mods = <<>> /\ wrap = "" /\ defects = 0 /\ near = <<>> /\ done = FALSE

More == ~done /\ defects < MaxDefects /\ wrap = "" /\ (Sim \/ shape = <<"", "">>)

\* Another value in one of the slots; possibly not a canonical one
Value ==
    /\ More /\ mods = <<>> /\ defects' = defects + 1
    /\ \E i \in Pick(1..Len(cells)) : \E c \in Pick(GoodOf(kinds[i]) \cup BadOf(kinds[i])) : cells' = [cells EXCEPT ![i] = c]
    /\ UNCHANGED <<t, n, kinds, shape, mods, wrap, near, done>>
\* The same value twice
Repeat ==
    /\ More /\ mods = <<>> /\ defects' = defects + 1
    /\ \E i, j \in Pick(1..Len(cells)) : i # j /\ kinds[i] = kinds[j] /\ cells[i] # cells[j] /\ cells' = [cells EXCEPT ![i] = cells[j]]
    /\ UNCHANGED <<t, n, kinds, shape, mods, wrap, near, done>>
\* A value that is related to another one: its inverse, twice it, it and the generator (or one) together, the sum of two
Rels(k) == IF k = "P" THEN {"neg", "dbl", "inc"} ELSE IF Sim THEN {"neg", "dbl", "inc", "inv", "sq"} ELSE {"neg"}
Fresh(i) == kinds[i] # "L" /\ cells[i] = Plain(kinds[i], i)
Related ==
    /\ More /\ mods = <<>> /\ shape = <<"", "">> /\ defects' = defects + 1
    /\ \E i, j \in Pick(1..Len(cells)) : i # j /\ kinds[i] = kinds[j] /\ kinds[i] # "L" /\ Fresh(j) /\ cells[i] # "id" /\ cells[i] # "0"
          /\ \/ \E r \in Pick(Rels(kinds[i])) : cells' = [cells EXCEPT ![i] = cells[j] \o "~" \o r]
             \/ Sim /\ \E m \in Pick(1..Len(cells)) : m \notin {i, j} /\ Fresh(m) /\ kinds[m] = kinds[i]
                                                    /\ cells' = [cells EXCEPT ![i] = cells[j] \o "~" \o cells[m]]
    /\ UNCHANGED <<t, n, kinds, shape, mods, wrap, near, done>>
\* The generator, or another value, as many times as a scalar says
Multiple ==
    /\ More /\ mods = <<>> /\ shape = <<"", "">> /\ defects' = defects + 1
    /\ \E i, j \in Pick(1..Len(cells)) : kinds[i] = "P" /\ kinds[j] = "S" /\ Fresh(i) /\ Fresh(j)
          /\ \/ cells' = [cells EXCEPT ![i] = cells[j] \o "~B"]
             \/ Sim /\ \E m \in Pick(1..Len(cells)) : m # i /\ kinds[m] = "P" /\ Fresh(m) /\ cells' = [cells EXCEPT ![i] = cells[j] \o "~" \o cells[m]]
    /\ UNCHANGED <<t, n, kinds, shape, mods, wrap, near, done>>
\* The bytes of a value of another kind
Cross ==
    /\ More /\ defects' = defects + 1
    /\ \E i \in Pick({i \in 1..Len(cells) : kinds[i] # "L"}) : mods' = Append(mods, <<"cell", i, IF kinds[i] = "P" THEN "s" \o ToString(i) ELSE "p" \o ToString(i)>>)
    /\ UNCHANGED <<t, n, kinds, shape, cells, wrap, near, done>>
Total == 32 * Len(kinds) - 24 * Cardinality({i \in 1..Len(kinds) : kinds[i] = "L"})
Cuts == {1, 2, 7, 8, 9, 16, 31, 32, 33, 40, 63, 64, 65, 96, 128}
Bytes ==
    /\ More /\ defects' = defects + 1
    /\ \E m \in Pick({<<"cut", x>> : x \in {x \in Cuts \cup {Total - 1, Total} : x > 0 /\ x <= Total}}
                     \cup {<<"ext", x, y>> : x \in {1, 8, 31, 32, 33, 40, 64, 96, 128}, y \in {"zero", "rand", "copy"}}
                     \cup {<<"ext", x, "zero">> : x \in {224, 255, 256, 257, 288, 512} \cup (IF t \in Repeating THEN {} ELSE {65536})}
                     \cup {<<"ext", Total, "copy">>}
                     \cup {<<"drop", x>> : x \in {x \in {0, 1, 31, 32, 33, 64, Total - 1} : x >= 0 /\ x < Total}}
                     \cup {<<"ins", x>> : x \in {x \in {0, 1, 31, 32, 33, 64, Total} : x >= 0 /\ x <= Total}}
                     \cup {<<"front", x>> : x \in {x \in {1, 8, 32, 64} : x <= Total}}
                     \cup {<<"rand", x>> : x \in {0, 1, 31, 32, 33, 64, 96, Total, Total + 1}}) :
            mods' = Append(mods, m)
    /\ UNCHANGED <<t, n, kinds, shape, cells, wrap, near, done>>
\* Anywhere (in simulations only)
Draw(i, j) == RandomElement(i..j)
Anywhere ==
    /\ More /\ Sim /\ Total >= 32 /\ defects' = defects + 1
    /\ \E m \in {CASE Draw(1, 10) <= 1 -> <<"rand", Draw(0, Total + 40)>>
                 [] OTHER -> LET x == Draw(1, 3) IN
                             IF x = 1 THEN <<"flip", Draw(0, Total * 8 - 1)>>
                             ELSE IF x = 2 THEN <<"byte", Draw(0, Total - 1), RandomElement({0, 1, 31, 32, 33, 127, 128, 255})>>
                             ELSE <<"swap", 8 * Draw(0, (Total - 32) \div 8), 8 * Draw(0, (Total - 32) \div 8)>>} :
            mods' = Append(mods, m)
    /\ UNCHANGED <<t, n, kinds, shape, cells, wrap, near, done>>
Wraps == {"json_el256", "json_neg", "json_float", "json_str_el", "json_null_el", "json_nested", "json_trunc", "json_tail", "json_obj",
          "json_null", "json_true", "json_num", "json_empty", "json_text", "json_comma", "json_huge_el", "json_bool_el", "json_objs",
          "bin_more", "bin_huge", "bin_max", "bin_cut", "bin_half", "bin_nothing", "bin_neg"}
Wrapped ==
    /\ More /\ mods = <<>> /\ Stands(t, View) /\ defects' = defects + 1
    /\ wrap' \in Pick(Wraps \cup {"ends"})
    /\ UNCHANGED <<t, n, kinds, shape, cells, mods, near, done>>
\* Another bit in a slot, or another value there
Near ==
    /\ ~done /\ Sim /\ defects = MaxDefects /\ Len(near) < MaxNear /\ Len(cells) > 0
    /\ \E i \in Pick(1..Len(cells)), x \in {Draw(0, 8 * 32 - 1)} :
          near' = Append(near, IF kinds[i] = "L" THEN <<"flipin", i, x % 64>>
                               ELSE IF Draw(1, 4) = 1 THEN <<"cell", i, (IF kinds[i] = "P" THEN "p" ELSE "s") \o "99">> ELSE <<"flipin", i, x>>)
    /\ UNCHANGED <<t, n, kinds, shape, cells, mods, wrap, defects, done>>
Finish == ~done /\ (Sim => defects = MaxDefects /\ (Len(near) = MaxNear \/ cells = <<>>)) /\ done' = TRUE /\ UNCHANGED <<t, n, kinds, shape, cells, mods, wrap, defects, near>>
Next == Near \/ Value \/ Anywhere \/ Repeat \/ Related \/ Multiple \/ Cross \/ Bytes \/ Wrapped \/ Finish
Spec == Init /\ [][Next]_vars

\* C12: decoding and encoding gives the same again.
Sizes == Total = Size(kinds)
RoundTrip == mods = <<>> /\ Stands(t, View) =>
    LET v == View l == Layout(t, kinds, AbsentSlots(t, v), Fields(t, kinds, v), "z", 1)
    IN  /\ Len(l) = Len(cells)
        /\ \A i \in 1..Len(cells) : l[i] = cells[i] \/ (l[i] = "z" /\ Zero(cells[i]))
        /\ Repetitions(t, Total) = n \/ n < LeastN(t)
\* C13: exactly one length for any number of repetitions, so that no byte string can stand for two objects
OneLength == \A m \in 0..MaxN : m # n /\ t \in Repeating => Size(Slots(t, m)) # Total
Op == [op |-> IF wrap = "" THEN "wire" ELSE IF wrap = "ends" THEN "ends" ELSE "wrapped", t |-> t, kinds |-> kinds, cells |-> cells, mods |-> mods, wrap |-> wrap, prev |-> FALSE,
       expect |-> IF t \in Repeating /\ n < LeastN(t) THEN "?" ELSE Expected]
\* The same bytes as before, but for a change; every now and then also as they were
Again(j) == IF j = 0 THEN [Op EXCEPT !.mods = <<>>, !.prev = TRUE] ELSE [Op EXCEPT !.mods = <<near[j]>>, !.prev = TRUE, !.expect = "?"]
Ops == <<Op>> \o [k \in 1..2 * Len(near) |-> IF k % 2 = 1 THEN Again((k + 1) \div 2) ELSE Again(0)]
Emit == done => PrintT("SCENARIO " \o ToJson([ops |-> Ops]))
=============================================================================
