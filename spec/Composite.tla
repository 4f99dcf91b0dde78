------------------------------ MODULE Composite ------------------------------
(* Composite and closed-form samplers (C23).  A composite generates with     *)
(* SMOTE and cleans the result; the safe-level graph sampler delegates by    *)
(* the sign of the skewness of the safe levels; polynomial samplers place    *)
(* points evenly on segments.                                                *)
EXTENDS NoiseFilter, PartitionFilter

(* two minority rows are too few for sampling: the input is returned *)
TooFew(y) == NMin(y) <= 2

(* --------------------------- SMOTE with cleaning ------------------------- *)
(* y: labels of the SMOTE output, D its distances, n: number of original     *)
(* rows (its first rows); the rows of the result                             *)
Original(n) == Identity(n)
Cleaned(name, D, y) == IF name = "SMOTE_TomekLinks" THEN Tomek(D, y, Identity(Len(y)), "remove_both") ELSE ENN(D, y, Identity(Len(y)), "both")
(* cleaning by ENN is given up if it leaves fewer majority than minority rows *)
(* or one class only, that by Tomek links if nothing is left                  *)
GivenUp(name, y, n, rows) ==
    LET orig == Prefix(y, n)
        left == LabelsOf(y, rows)
    IN  IF name = "SMOTE_TomekLinks" THEN rows = <<>>
        ELSE Count(left, MajLabel(orig)) < Count(left, MinLabel(orig)) \/ Cardinality(Range(left)) < 2
Combined(name, D, y, n) == LET rows == Cleaned(name, D, y) IN IF GivenUp(name, y, n, rows) THEN Original(n) ELSE rows

(* ------------------------------ safe level graph ------------------------- *)
(* near[i]: labels of the rows in the order of their distance from minority i *)
SafeLevels(near, k, min) == [i \in DOMAIN near |-> Count(Prefix(near[i], Min(k, Len(near[i]))), min)]
Cube(v) == v * v * v
(* third central moment times n^4: its sign is that of the skewness *)
Moment3(s) == SumSeq([i \in DOMAIN s |-> Cube(Len(s) * s[i] - SumSeq(s))])
Constant(s) == Cardinality(Range(s)) <= 1
(* the skewness of a non-constant symmetric sample is zero up to rounding *)
Delegates(s) == IF Constant(s) THEN {"Borderline_SMOTE1"}
                ELSE IF Moment3(s) < 0 THEN {"Safe_Level_SMOTE"}
                ELSE IF Moment3(s) > 0 THEN {"Borderline_SMOTE1"} ELSE {"Safe_Level_SMOTE", "Borderline_SMOTE1"}

(* ------------------------------- polynomials ----------------------------- *)
(* a / b rounded, halves to the even neighbour *)
Rint(a, b) == LET q == a \div b
                  r == 2 * (a % b)
              IN  IF r < b THEN q ELSE IF r > b THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
PerPoint(n, m) == Max(1, Rint(n, m))
SumVec(X) == [c \in DOMAIN X[1] |-> SumSeq([i \in DOMAIN X |-> X[i][c]])]
(* points times Len(X) * (k + 1), one sequence of rows for each topology *)
StarScale(X, k) == Len(X) * (k + 1)
Star(X, k) == LET S == SumVec(X) n == Len(X) IN
    [p \in 1..(n * k) |-> LET i == (p - 1) \div k + 1
                              s == ((p - 1) % k) + 1
                          IN  [c \in DOMAIN X[i] |-> n * (k + 1) * X[i][c] + s * (S[c] - n * X[i][c])]]
Bus(X, k) == LET n == Len(X) IN
    [p \in 1..((n - 1) * k) |-> LET i == (p - 1) \div k + 1
                                    s == ((p - 1) % k) + 1
                                IN  [c \in DOMAIN X[i] |-> n * ((k + 1) * X[i][c] + s * (X[i + 1][c] - X[i][c]))]]
Placed(topology, X, k) == IF topology = "star" THEN Star(X, k) ELSE Bus(X, k)
(* p lies at a fraction of at most q parts between two of the points *)
OnSegment(X, p, q, near(_, _)) ==
    \E i, j \in DOMAIN X : \E m \in 2..(q + 1) : \E s \in 0..m :
        \A c \in DOMAIN p : near(m * p[c], m * X[i][c] + s * (X[j][c] - X[i][c]))

(* --------------------- selection from the SMOTE output ------------------- *)
(* rough sets: a sample enters at the first similarity threshold no majority *)
(* row exceeds, thresholds are raised until enough samples are found         *)
NeverAdded == 99
RECURSIVE RoughSet(_, _, _, _)
RoughSet(level, need, at, got) ==
    IF Len(got) >= need \/ at > 10 THEN Prefix(got, Min(need, Len(got)))
    ELSE RoughSet(level, need, at + 1, got \o SelectSeq(Identity(Len(level)), LAMBDA i : level[i] = at))
RoughSelection(level, y) == RoughSet(level, NMaj(y) - NMin(y), 0, <<>>)
(* the samples of the lowest scores, in their order; rank is a permutation *)
Lowest(rank, q) == [r \in 1..Min(q, Len(rank)) |-> CHOOSE i \in DOMAIN rank : rank[i] = r]
(* majority rows not farther from their mean than the deviation (all components kept) *)
SqNorm(v) == SumSeq([c \in DOMAIN v |-> v[c] * v[c]])
Central(M) == LET S == SumVec(M) IN [i \in DOMAIN M |-> SqNorm([c \in DOMAIN S |-> Len(M) * M[i][c] - S[c]])]
WithinDeviation(M) == LET Z == Central(M) IN SelectSeq(Identity(Len(M)), LAMBDA i : Len(M) * Z[i] <= SumSeq(Z))
=============================================================================
