------------------------------- MODULE Buffers -------------------------------
(* Bytes that are exported to C, in buffers that the caller keeps as long   *)
(* as it likes, and sources that change after they have been exported.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, MaxOps, MaxLen, Mutation

VARIABLES src,   \* name -> bytes
          mem,   \* place -> bytes: what C's allocator has given out
          buf,   \* name -> [at: place, v: what was exported]
          ops, done
vars == <<src, mem, buf, ops, done>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

Init == src = <<>> /\ mem = <<>> /\ buf = <<>> /\ ops = <<>> /\ done = FALSE
Idle == ~done /\ Len(ops) < MaxOps
Name(x) == x \o ToString(Len(ops) + 1)
Terminated(v) == Append(v, 0)

Source(v) ==
    /\ Idle /\ src' = (Name("s") :> v) @@ src
    /\ ops' = Append(ops, [op |-> "source", o |-> Name("s"), v |-> v])
    /\ UNCHANGED <<mem, buf, done>>
\* (its bytes do not matter here)
Pattern(n, s) ==
    /\ Idle /\ src' = (Name("s") :> [i \in 1..n |-> s]) @@ src
    /\ ops' = Append(ops, [op |-> "pattern", o |-> Name("s"), n |-> n, s |-> s])
    /\ UNCHANGED <<mem, buf, done>>
Overwrite(x, s) ==
    /\ Idle /\ src' = [src EXCEPT ![x] = [i \in 1..Len(@) |-> (@[i] + s) % 256]]
    /\ ops' = Append(ops, [op |-> "overwrite", a |-> x, s |-> s])
    /\ mem' = IF "Alias" \in Mutation THEN [p \in DOMAIN mem |-> IF p \in {<<"s", x>>} THEN Terminated(src'[x]) ELSE mem[p]] ELSE mem
    /\ UNCHANGED <<buf, done>>
Discard(x) ==
    /\ Idle /\ src' = [y \in DOMAIN src \ {x} |-> src[y]]
    /\ ops' = Append(ops, [op |-> "discard", a |-> x])
    /\ UNCHANGED <<mem, buf, done>>
Bytes(x) == IF x \in DOMAIN src THEN src[x] ELSE buf[x].v
UpToZero(v) == IF \E i \in 1..Len(v) : v[i] = 0 THEN SubSeq(v, 1, (CHOOSE i \in 1..Len(v) : v[i] = 0 /\ \A j \in 1..(i - 1) : v[j] # 0) - 1) ELSE v
Export(x, from, len) ==
    LET v == SubSeq(Bytes(x), from + 1, from + len)
        at == IF "Alias" \in Mutation THEN <<"s", x>> ELSE IF "Static" \in Mutation THEN "static" ELSE <<"new", Len(ops)>>
    IN  /\ Idle
        /\ mem' = (at :> Terminated(IF "CString" \in Mutation THEN UpToZero(v) ELSE v)) @@ mem
        /\ buf' = (Name("b") :> [at |-> at, v |-> v]) @@ buf
        /\ ops' = Append(ops, [op |-> "export", o |-> Name("b"), a |-> x, from |-> from, len |-> len, fail |-> FALSE])
        /\ UNCHANGED <<src, done>>
\* There is no memory.
Fails(x, from, len) ==
    /\ Idle
    /\ ops' = Append(ops, [op |-> "export", o |-> Name("b"), a |-> x, from |-> from, len |-> len, fail |-> TRUE])
    /\ UNCHANGED <<src, mem, buf, done>>
Free(b) ==
    /\ Idle
    /\ mem' = [p \in DOMAIN mem \ {buf[b].at} |-> mem[p]]
    /\ buf' = [x \in DOMAIN buf \ {b} |-> buf[x]]
    /\ ops' = Append(ops, [op |-> "free", a |-> b])
    /\ UNCHANGED <<src, done>>
\* A point, which is always another one
Maths(op) ==
    /\ Idle
    /\ IF op = "maths"
       THEN LET at == IF "Static" \in Mutation THEN "static" ELSE <<"new", Len(ops)>> v == [i \in 1..32 |-> Len(ops)] IN
            mem' = (at :> Terminated(v)) @@ mem /\ buf' = (Name("b") :> [at |-> at, v |-> v]) @@ buf
       ELSE UNCHANGED <<mem, buf>>
    /\ ops' = Append(ops, IF op = "maths" THEN [op |-> op, o |-> Name("b")] ELSE [op |-> op])
    /\ UNCHANGED <<src, done>>
Stop == ~done /\ ops # <<>> /\ (IF Sim THEN Len(ops) = MaxOps ELSE ops[Len(ops)].op \notin {"source", "pattern"}) /\ done' = TRUE /\ UNCHANGED <<src, mem, buf, ops>>

Some(o) == IF Sim THEN {[i \in 1..RandomElement(0..MaxLen) |-> IF RandomElement(1..3) = 1 THEN 0 ELSE RandomElement(0..255)]}
           ELSE UNION {[1..n -> {0, 165}] : n \in 0..MaxLen} \cup {[i \in 1..n |-> (37 * i) % 256] : n \in {7, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 39, 40, 41, 63, 64, 65, 127, 128, 255, 256, 257}}
Pieces(x) == LET n == Len(Bytes(x)) IN
    IF Sim THEN {<<f, RandomElement(0..(n - f))>> : f \in {RandomElement(0..n)}} \cup {<<0, n>>}
    ELSE {<<0, n>>} \cup (IF n > 0 THEN {<<1, n - 1>>, <<0, n - 1>>} ELSE {})
Next ==
    \/ (Sim \/ ops = <<>>) /\ \E v \in Some(ops) : Source(v)
    \/ Sim /\ \E n \in Pick({300, 1000, 4095, 4096, 70000, 200000}) : \E s \in Pick(1..100) : Pattern(n, s)
    \/ \E x \in Pick(DOMAIN src) : \E s \in Pick({1, 90}) : Overwrite(x, s)
    \/ \E x \in Pick(DOMAIN src) : Discard(x)
    \/ \E x \in Pick(DOMAIN src \cup DOMAIN buf) : \E p \in Pick(Pieces(x)) : Export(x, p[1], p[2])
    \/ \E x \in Pick(DOMAIN src) : \E p \in Pick(Pieces(x)) : Export(x, p[1], p[2])
    \/ \E x \in Pick(DOMAIN src) : \E p \in Pick(Pieces(x)) : Fails(x, p[1], p[2])
    \/ \E b \in Pick(DOMAIN buf) : Free(b)
    \/ \E m \in Pick({"maths", "mathslib"}) : Maths(m)
    \/ Stop
Spec == Init /\ [][Next]_vars

\* Every buffer that has been handed out, and not been given back, holds what was exported ..
Intact == \A b \in DOMAIN buf : buf[b].at \in DOMAIN mem /\ mem[buf[b].at] = Terminated(buf[b].v)
\* .. in a place of its own.
Apart == \A b, c \in DOMAIN buf : b # c => buf[b].at # buf[c].at

Emit == done => PrintT("SCENARIO " \o ToJson([ops |-> ops]))
=============================================================================
