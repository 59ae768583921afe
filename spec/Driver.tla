------------------------------- MODULE Driver -------------------------------
(* What the models that explore sequences of operations have in common:    *)
(* the machine, the operations performed so far, and what they yielded.    *)
(* A finished sequence of operations is printed: it is a scenario, which   *)
(* is then executed by the real library.                                   *)
EXTENDS Machine, Json, IOUtils, Randomization, SequencesExt

CONSTANT Sim        \* TRUE in random simulation, where choices are drawn rather than enumerated

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
PickSome(n, S) == IF Sim /\ Cardinality(S) > n THEN RandomSubset(n, S) ELSE S

VARIABLES st,     \* the state of the machine
          ops,    \* the operations performed so far
          hist,   \* their outcomes: [ok, in, out]
          done    \* nothing more is to come

dvars == <<st, ops, hist, done>>

\* Operations
Op(op, o, a) == [op |-> op, o |-> o, a |-> a]
OpN(op, o, a, n) == [op |-> op, o |-> o, a |-> a, n |-> n]
OpF(op, o, a, f) == [op |-> op, o |-> o, a |-> a, f |-> f]
Chk(op, a) == [op |-> op, a |-> a]
ChkN(op, a, n) == [op |-> op, a |-> a, n |-> n]
OpNum(o, d) == [op |-> "num", o |-> o, d |-> d]
OpConst(o, n) == [op |-> "s_const", o |-> o, n |-> n]
\* With luck: a byte of the result, at a place, is a certain one.
Lucky(op, place, byte) == op @@ ("luck" :> <<place, byte>>)
OpNew(op, o) == [op |-> op, o |-> o]
OpPf(op, o, kind, ctx, p, s) == [op |-> op, o |-> o, kind |-> kind, ctx |-> ctx, p |-> p, s |-> s]
OpChal(o, kind, ctx, p, c, skip) == [op |-> "chal", o |-> o, kind |-> kind, ctx |-> ctx, p |-> p, c |-> c, skip |-> skip]
ChkPf(op, pf, kind, ctx, p) == [op |-> op, a |-> <<pf>>, kind |-> kind, ctx |-> ctx, p |-> p]

Outcome(s, e) ==
    LET x == Exec(s, e) IN
    [st |-> x.st,
     h |-> [e |-> e, ok |-> x.ok,
            in |-> [i \in 1..Len(ArgsOf(e)) |-> s.env[e.a[i]]],
            out |-> IF HasO(e) /\ x.ok THEN x.st.env[e.o] ELSE <<>>]]

Run(s, es, h) ==
    FoldLeft(LAMBDA acc, e : LET x == Outcome(acc.st, e) IN [st |-> x.st, hist |-> Append(acc.hist, x.h)],
             [st |-> s, hist |-> h], es)

\* Perform operations one after the other (whether or not they succeed).
DoAll(es) ==
    LET r == Run(st, es, hist) IN
    /\ st' = r.st
    /\ hist' = r.hist
    /\ ops' = ops \o es
Do(e) == DoAll(<<e>>)

Begin(es) ==
    LET r == Run(Init0, es, <<>>) IN
    /\ st = r.st
    /\ hist = r.hist
    /\ ops = es
    /\ done = FALSE

Regs(kind) == {x \in DOMAIN st.env : st.env[x].k = kind}
Name(prefix) == prefix \o ToString(Len(ops))               \* a new register

\* An invariant that prints the scenario of every state that is done.
Emit == done => PrintT("SCENARIO " \o ToJson([ops |-> ops]))
=============================================================================
