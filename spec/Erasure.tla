------------------------------- MODULE Erasure -------------------------------
(* Values that own secrets: where their secrets lie in memory, what cloning *)
(* and dropping does to that memory, and in which order.  A value is       *)
(* dropped by wiping each of its cells of memory and then giving them back.*)
(* Scenarios, for the real code, are sequences of making, cloning, looking *)
(* at, and dropping of values, in all the ways to drop one.                *)
EXTENDS ErasureTypes, Json, TLC

CONSTANTS Sim, MaxVals, MaxOps, MaxN, TestTypes, TestWays, Small, Mutation

VARIABLES mem,      \* cell -> what it holds: the number of a secret, or 0
          freed,    \* cells that have been given back
          vals,     \* name -> [type, n, cells, secrets]: values that are alive, or being dropped
          dying,    \* the value that is being dropped ("" if there is none), and how much has been wiped of it
          ops, done
vars == <<mem, freed, vals, dying, ops, done>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

Init == mem = <<>> /\ freed = {} /\ vals = [x \in {} |-> 0] /\ dying = [v |-> "", k |-> 0] /\ ops = <<>> /\ done = FALSE

Idle == ~done /\ dying.v = ""
Name == "v" \o ToString(Len(ops) + 1)
Fresh(n) == [i \in 1..n |-> Len(mem) + i]
Room == Cardinality(DOMAIN vals) < MaxVals /\ Len(ops) < MaxOps

Make(t, n, from) ==
    LET k == Cells(t, n)
        cs == Fresh(k)
    IN  /\ Idle /\ Room
        /\ mem' = mem \o cs                     \* the number of the cell serves as the number of the secret
        /\ vals' = (Name :> [type |-> t, n |-> n, cells |-> cs, secrets |-> cs]) @@ vals
        /\ ops' = Append(ops, [op |-> "make", o |-> Name, type |-> t, n |-> n, from |-> from])
        /\ UNCHANGED <<freed, dying, done>>

Clone(v) ==
    /\ Idle /\ Room /\ vals[v].type \in Clonable
    /\ LET x == vals[v]
           cs == Fresh(Len(x.cells))
       IN IF "SharedClone" \in Mutation
          THEN mem' = mem /\ vals' = (Name :> x) @@ vals
          ELSE mem' = mem \o [i \in 1..Len(x.cells) |-> mem[x.cells[i]]] /\ vals' = (Name :> [x EXCEPT !.cells = cs]) @@ vals
    /\ ops' = Append(ops, [op |-> "clone", o |-> Name, a |-> v, type |-> vals[v].type, n |-> vals[v].n])
    /\ UNCHANGED <<freed, dying, done>>

Look(v) ==
    /\ Idle /\ Len(ops) < MaxOps /\ ops # <<>>
    /\ ~(ops[Len(ops)].op \in {"look", "clone", "make"} /\ (IF ops[Len(ops)].op = "look" THEN ops[Len(ops)].a ELSE ops[Len(ops)].o) = v)
    /\ ops' = Append(ops, [op |-> "look", a |-> v, type |-> vals[v].type, n |-> vals[v].n])
    /\ UNCHANGED <<mem, freed, vals, dying, done>>

Drop(v, way) ==
    /\ Idle /\ Len(ops) < MaxOps + 2
    /\ dying' = [v |-> v, k |-> 0]
    /\ ops' = Append(ops, [op |-> "drop", a |-> v, way |-> way, type |-> vals[v].type, n |-> vals[v].n])
    /\ UNCHANGED <<mem, freed, vals, done>>

\* What wiping touches, in a faulty implementation
Reached(v, i) == CASE "SkipTail" \in Mutation -> i = 1
                   [] "SkipHead" \in Mutation -> i > 1
                   [] "CopyWiped" \in Mutation -> FALSE
                   [] "OwnOnly" \in Mutation -> vals[v].type \notin {"issuer", "sissuer", "user", "suser"}
                   [] OTHER -> TRUE
\* A key is wiped a scalar at a time.
Wipe ==
    /\ dying.v # "" /\ dying.k < Len(vals[dying.v].cells)
    /\ LET i == dying.k + 1 IN mem' = IF Reached(dying.v, i) THEN [mem EXCEPT ![vals[dying.v].cells[i]] = 0] ELSE mem
    /\ dying' = [dying EXCEPT !.k = @ + 1]
    /\ UNCHANGED <<freed, vals, ops, done>>
GiveBack ==
    /\ dying.v # "" /\ (dying.k = Len(vals[dying.v].cells) \/ "FreeFirst" \in Mutation)
    /\ freed' = freed \cup {vals[dying.v].cells[i] : i \in 1..Len(vals[dying.v].cells)}
    /\ vals' = [x \in DOMAIN vals \ {dying.v} |-> vals[x]]
    /\ dying' = [v |-> "", k |-> 0]
    /\ UNCHANGED <<mem, ops, done>>

Stop == Idle /\ ops # <<>> /\ (vals = <<>> \/ Sim) /\ (~Sim \/ Len(ops) >= MaxOps) /\ done' = TRUE /\ UNCHANGED <<mem, freed, vals, dying, ops>>

Sizes(t) == IF t \in Sized THEN (IF t = "keypair" THEN 1..MaxN ELSE 0..MaxN) ELSE {1}
\* In an exhaustive exploration, one value and its clones are looked at
MakeAny ==
    /\ Sim \/ ops = <<>>
    /\ \E t \in Pick(TestTypes) : \E n \in Pick(IF Small /\ t \in Sized THEN {1, MaxN} ELSE IF Sim /\ t \in Sized THEN Sizes(t) \cup {17, 33} ELSE Sizes(t)) : \E from \in Pick(Sources(t)) : Make(t, n, from)
\* (after the first one, values are dropped in only one way when everything is explored)
Ways(v) == IF Sim \/ ~\E i \in 1..Len(ops) : ops[i].op = "drop" THEN Pick(TestWays) ELSE {"box"}
Next ==
    \/ MakeAny
    \/ \E v \in Pick(DOMAIN vals) : Clone(v)
    \/ \E v \in Pick(DOMAIN vals) : Look(v)
    \/ \E v \in Pick(DOMAIN vals) : \E w \in Ways(v) : Drop(v, w)
    \/ Wipe \/ GiveBack \/ Stop
Spec == Init /\ [][Next]_vars

\* Memory that has been given back holds no secrets, ..
Wiped == \A c \in freed : mem[c] = 0
\* .. and that of other values is left alone.
Kept == \A v \in DOMAIN vals \ {dying.v} : \A i \in 1..Len(vals[v].cells) : mem[vals[v].cells[i]] = vals[v].secrets[i]
\* Every value owns its cells alone.
Apart == \A v, w \in DOMAIN vals : v # w => \A i \in 1..Len(vals[v].cells), j \in 1..Len(vals[w].cells) : vals[v].cells[i] # vals[w].cells[j]

Emit == done => PrintT("SCENARIO " \o ToJson([ops |-> ops]))
=============================================================================
