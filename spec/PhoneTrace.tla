------------------------------ MODULE PhoneTrace ------------------------------
(* Decides whether what the conversions of phone numbers did is what Phone   *)
(* allows.                                                                   *)
EXTENDS Phone, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* A string and bytes that are turned into a scalar
All(xs, P(_)) == \A i \in 1..Len(xs) : P(xs[i])
Made(e, want) ==       \* every way to turn it into a scalar gives this one
    All(e.made, LAMBDA x : x.res = "ok" /\ x.v = want)
Refused(e) == All(e.made, LAMBDA x : x.res = "err")
\* the scalar is turned into the string s, however it came about
Back(e, s) == All(e.back, LAMBDA x : x.res = "ok" /\ x.v = s)
Calm(e) == All(e.made, LAMBDA x : x.res \in {"ok", "err"}) /\ All(e.back, LAMBDA x : x.res \in {"ok", "err"})
Numerals(x) == x.res = "ok" => Len(x.v) <= MaxDigits /\ \A i \in 1..Len(x.v) : x.v[i] \in 48..57

Allowed(e) ==
    CASE e.op = "reset" -> TRUE
      [] e.op = "number" ->
           IF IsNumber(e.v) THEN Made(e, Layout(e.v)) /\ Back(e, Numeral(e.v)) /\ e.opens = "ok"
           ELSE Refused(e)
      [] e.op = "str" ->
           /\ Calm(e)
           /\ IF IsNumeral(e.v) THEN Made(e, Layout(Digits(e.v))) /\ Back(e, e.v)
              ELSE IF e.n > MaxDigits THEN Refused(e)
              ELSE All(e.made, LAMBDA x : x.res = "ok" => Reading(x.v) = {})    \* not taken for any number
      [] e.op = "bytes" ->
           /\ Calm(e)
           /\ IF Len(e.v) > MaxDigits THEN Refused(e) /\ e.opens # "ok"
              ELSE All(e.made, LAMBDA x : x.res = "ok" => x.v = Layout(e.v))
      [] e.op = "scalar" ->
           /\ Calm(e)
           /\ All(e.made, LAMBDA x : x.res = (IF Canonical(e.v) THEN "ok" ELSE "err") /\ (x.res = "ok" => x.v = e.v))
           /\ Canonical(e.v) => /\ All(e.back, Numerals)
                                /\ \A d \in Reading(e.v) : Back(e, Numeral(d))

Init == l \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED l
Spec == Init /\ [][Next]_l
Judge == Allowed(Trace[l]) \/ PrintT("REJECT " \o ToJson([reject |-> l, event |-> Trace[l],
                                     expected |-> IF Trace[l].op = "number" /\ IsNumber(Trace[l].v) THEN Layout(Trace[l].v) ELSE "no panic, and no number"]))
Accepted == TLCGet("stats").distinct = Len(Trace)
=============================================================================
