------------------------------ MODULE Algebra ------------------------------
(* Symbolic scalars and group elements.                                    *)
(*                                                                         *)
(* A scalar is a polynomial with integer coefficients over symbols         *)
(* (positive integers), each of which stands for a value that was drawn    *)
(* uniformly and independently: a function from monomials (ascending       *)
(* sequences of symbols) to coefficients other than 0.  A group element is *)
(* such a polynomial in whose every monomial exactly one symbol is         *)
(* negative: the generator it is a multiple of.  The Ristretto basepoint   *)
(* is the generator -1; nobody knows a discrete logarithm between two      *)
(* generators.                                                             *)
(*                                                                         *)
(* By the Schwartz-Zippel lemma two such terms (of low degree) that differ *)
(* differ also in value, but for a probability of about 2^-250, and two    *)
(* equal terms always have equal values.  So what the terms say of         *)
(* equality, a correct implementation has to say of the values.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

PZero == <<>>
PConst(k) == IF k = 0 THEN PZero ELSE (<<>> :> k)
PVar(s) == (<<s>> :> 1)
G == PVar(-1)

Coeff(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0

PAdd(p, q) ==
    IF p = PZero THEN q ELSE IF q = PZero THEN p ELSE
    LET D == {m \in DOMAIN p \cup DOMAIN q : Coeff(p, m) + Coeff(q, m) # 0}
    IN  IF D = {} THEN PZero ELSE [m \in D |-> Coeff(p, m) + Coeff(q, m)]

PNeg(p) == IF p = PZero THEN p ELSE [m \in DOMAIN p |-> -p[m]]
PSub(p, q) == PAdd(p, PNeg(q))

\* The symbol Inv + s is the inverse of the symbol s (which is not 0, but for a negligible probability).
Inv == 1000000
RECURSIVE Cancel(_)
Cancel(m) ==
    LET I == {i \in 1..Len(m) : m[i] > Inv /\ \E j \in 1..Len(m) : m[j] = m[i] - Inv}
    IN  IF I = {} THEN m
        ELSE LET i == CHOOSE i \in I : TRUE
                 j == CHOOSE j \in 1..Len(m) : m[j] = m[i] - Inv
             IN  Cancel([k \in 1..(Len(m) - 2) |-> IF k < j THEN m[k] ELSE IF k < i - 1 THEN m[k + 1] ELSE m[k + 2]])
MMul(a, b) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE LET m == SortSeq(a \o b, <) IN IF m[Len(m)] > Inv THEN Cancel(m) ELSE m
\* The inverse of a product of symbols
IsMonomial(p) == Cardinality(DOMAIN p) = 1 /\ \A m \in DOMAIN p : p[m] = 1 /\ \A i \in 1..Len(m) : m[i] > 0
PInv(p) ==
    LET m == CHOOSE m \in DOMAIN p : TRUE
    IN  (SortSeq([i \in 1..Len(m) |-> IF m[i] > Inv THEN m[i] - Inv ELSE m[i] + Inv], <) :> 1)

\* p times a single term
PShift(p, m, k) ==
    LET S == {<<MMul(x, m), p[x] * k>> : x \in DOMAIN p}      \* multiplying by m keeps monomials distinct (also when inverses cancel)
    IN  [y \in {s[1] : s \in S} |-> (CHOOSE s \in S : s[1] = y)[2]]

PMul(p, q) ==
    IF p = PZero \/ q = PZero THEN PZero
    ELSE IF Cardinality(DOMAIN q) <= Cardinality(DOMAIN p)
         THEN FoldSet(LAMBDA m, acc : PAdd(acc, PShift(p, m, q[m])), PZero, DOMAIN q)
         ELSE FoldSet(LAMBDA m, acc : PAdd(acc, PShift(q, m, p[m])), PZero, DOMAIN p)

RECURSIVE PSumFrom(_, _)
PSumFrom(s, i) == IF i > Len(s) THEN PZero ELSE PAdd(s[i], PSumFrom(s, i + 1))
PSum(s) == PSumFrom(s, 1)

Symbols(p) == UNION {{m[i] : i \in 1..Len(m)} : m \in DOMAIN p}
IsScalarTerm(p) == \A m \in DOMAIN p : \A i \in 1..Len(m) : m[i] > 0
IsPointTerm(p) == \A m \in DOMAIN p : Cardinality({i \in 1..Len(m) : m[i] < 0}) = 1
=============================================================================
