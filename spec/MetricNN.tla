------------------------------- MODULE MetricNN -------------------------------
(* Distances and neighbours under a metric tensor (C20).  The distance       *)
(* matrix of queries and candidates is computed in blocks of rows such that  *)
(* rows x features x candidates of a block do not exceed the memory bound,   *)
(* unless the block is a single row.                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Points, Tensors, MaxQ, MaxC, Memories, Guarded
VARIABLES base, cand, tensor, mem, work, matrix
vars == <<base, cand, tensor, mem, work, matrix>>

(* ------------------------------ definitions ------------------------------ *)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
(* squared distance of x and y under M *)
Dist(M, x, y) ==
    LET d == [i \in DOMAIN x |-> x[i] - y[i]]
    IN  SumTo([i \in DOMAIN x |-> d[i] * SumTo([j \in DOMAIN x |-> M[i][j] * d[j]], Len(x))], Len(x))
Matrix(M, X, Y) == [i \in DOMAIN X |-> [j \in DOMAIN Y |-> Dist(M, X[i], Y[j])]]
Range(s) == {s[i] : i \in DOMAIN s}
Identity(M) == \A i, j \in DOMAIN M : M[i][j] = (IF i = j THEN 1 ELSE 0)
Euclid(x, y) == SumTo([i \in DOMAIN x |-> (x[i] - y[i]) * (x[i] - y[i])], Len(x))

(* ids: the answer to a k-neighbour query with the distances row (of all candidates) *)
Nearest(row, k, ids) ==
    /\ Len(ids) = k
    /\ Range(ids) \subseteq DOMAIN row
    /\ Cardinality(Range(ids)) = k
    /\ \A a, b \in DOMAIN ids : a < b => row[ids[a]] <= row[ids[b]]
    /\ \A a \in DOMAIN ids : \A j \in DOMAIN row \ Range(ids) : row[ids[a]] <= row[j]
Within(row, r2) == {j \in DOMAIN row : row[j] <= r2}

(* --------------------------- blocked computation ------------------------- *)
Seqs(S, n) == UNION {[1..m -> S] : m \in 1..n}
Dim == Len(CHOOSE p \in Points : TRUE)
Init ==
    /\ base \in Seqs(Points, MaxQ) /\ cand \in Seqs(Points, MaxC)
    /\ tensor \in Tensors /\ mem \in Memories
    /\ work = <<<<1, Len(base)>>>>      \* stack of blocks of rows to compute
    /\ matrix = <<>>
Size(b) == (b[2] - b[1] + 1) * Dim * Len(cand)
Rows(b) == b[2] - b[1] + 1
TooLarge(b) == Size(b) > mem /\ (Guarded => Rows(b) > 1)
CeilDiv(a, b) == (a + b - 1) \div b
BlockSize(b) == LET s == Rows(b) \div CeilDiv(Size(b), mem) IN IF s < 1 THEN 1 ELSE s
RECURSIVE Cut(_, _, _)
Cut(from, to, s) == IF from > to THEN <<>> ELSE <<<<from, IF from + s - 1 > to THEN to ELSE from + s - 1>>>> \o Cut(from + s, to, s)
Split ==
    /\ work # <<>> /\ TooLarge(Head(work))
    /\ work' = Cut(Head(work)[1], Head(work)[2], BlockSize(Head(work))) \o Tail(work)
    /\ UNCHANGED <<base, cand, tensor, mem, matrix>>
Compute ==
    /\ work # <<>> /\ ~TooLarge(Head(work))
    /\ matrix' = matrix \o Matrix(tensor, SubSeq(base, Head(work)[1], Head(work)[2]), cand)
    /\ work' = Tail(work)
    /\ UNCHANGED <<base, cand, tensor, mem>>
Next == Split \/ Compute
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ChunkIndependent == work = <<>> => matrix = Matrix(tensor, base, cand)
NonNegative == \A i \in DOMAIN matrix : \A j \in DOMAIN matrix[i] : matrix[i][j] >= 0
Symmetric == \A i \in DOMAIN base : \A j \in DOMAIN cand : Dist(tensor, base[i], cand[j]) = Dist(tensor, cand[j], base[i])
EuclidUnderIdentity == Identity(tensor) => \A i \in DOMAIN base : \A j \in DOMAIN cand : Dist(tensor, base[i], cand[j]) = Euclid(base[i], cand[j])
(* the k nearest are those within their largest distance, up to ties *)
NeighboursWithin ==
    work = <<>> => \A i \in DOMAIN matrix : \A k \in 1..Len(cand) :
        \A ids \in {s \in [1..k -> DOMAIN cand] : Nearest(matrix[i], k, s)} :
            Range(ids) \subseteq Within(matrix[i], matrix[i][ids[k]]) /\ Within(matrix[i], matrix[i][ids[k]] - 1) \subseteq Range(ids)
WithinMemory == work # <<>> /\ ~TooLarge(Head(work)) => Size(Head(work)) <= mem \/ Rows(Head(work)) = 1
Finishes == <>(work = <<>>)
=============================================================================
