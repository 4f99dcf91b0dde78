------------------------------- MODULE SVBase -------------------------------
(* Vocabulary shared by the specifications: label vectors, class counts,     *)
(* class roles, quotas, subsequences.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a
MaxOf(S) == CHOOSE x \in S : \A z \in S : z <= x
MinOf(S) == CHOOSE x \in S : \A z \in S : x <= z

Range(f) == {f[i] : i \in DOMAIN f}
Labels(y) == Range(y)
Count(y, v) == Cardinality({i \in DOMAIN y : y[i] = v})

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

IsSeqOf(S, n) == [1..n -> S]
Prefix(s, n) == SubSeq(s, 1, n)
Identity(n) == [i \in 1..n |-> i]

(* ---- class roles: the minority is the rarer class, on ties the one with   *)
(* the larger label                                                          *)
TwoClasses(y) == Cardinality(Labels(y)) = 2
MinLabel(y) ==
    LET lo == MinOf(Labels(y))
        hi == MaxOf(Labels(y))
    IN  IF Count(y, lo) < Count(y, hi) THEN lo ELSE hi
MajLabel(y) == CHOOSE v \in Labels(y) : v # MinLabel(y)
NMin(y) == Count(y, MinLabel(y))
NMaj(y) == Count(y, MajLabel(y))

(* ---- quota: floor(proportion * (n_maj - n_min)), proportion = p[1]/p[2]   *)
Quota(y, p) == ((NMaj(y) - NMin(y)) * p[1]) \div p[2]
=============================================================================
