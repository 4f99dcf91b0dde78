----------------------------- MODULE NoiseFilter -----------------------------
(* The published cleaning rules, defined on points in generic position (no   *)
(* two pairwise distances are equal), so that every rule determines a unique *)
(* result: a sequence of kept input rows.                                    *)
EXTENDS SVBase, TLC

(* ---- distances on integer coordinates (monotone images of the metric) ---- *)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Dist(metric, a, b) ==
    LET df == [k \in DOMAIN a |-> Abs(a[k] - b[k])]
    IN  CASE metric = "euclidean" -> SumTo([k \in DOMAIN a |-> df[k] * df[k]], Len(a))
          [] metric = "manhattan" -> SumTo(df, Len(a))
          [] metric = "chebyshev" -> MaxOf(Range(df))
DistMatrix(metric, X) == TLCEval([i \in DOMAIN X |-> TLCEval([j \in DOMAIN X |-> Dist(metric, X[i], X[j])])])

(* the nearest element of S to i (i not in S), and the k nearest of S         *)
Nearest(D, i, S) == CHOOSE j \in S : \A m \in S : D[i][j] <= D[i][m]
RECURSIVE KNearest(_, _, _, _)
KNearest(D, i, S, k) ==
    IF k = 0 \/ S = {} THEN <<>>
    ELSE LET j == Nearest(D, i, S) IN <<j>> \o KNearest(D, i, S \ {j}, k - 1)

GenericPosition(D, S) ==
    \A i, j \in S : i = j \/ (D[i][j] > 0 /\ \A k \in S : (k # i /\ k # j) => D[i][j] # D[i][k])

(* ascending sequence of a set of row numbers *)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Ascending(S \ {m})

(* labels of a sequence of kept rows *)
LabelsOf(y, rows) == [i \in DOMAIN rows |-> y[rows[i]]]
(* class roles within the kept rows *)
RoleMin(y, rows) == MinLabel(LabelsOf(y, rows))
RoleMaj(y, rows) == MajLabel(LabelsOf(y, rows))
BothPresent(y, rows) == Cardinality({y[r] : r \in Range(rows)}) = 2

(* most frequent label; for ties the smallest *)
ModeOf(s) == MinOf({v \in Range(s) : \A w \in Range(s) : Count(s, v) >= Count(s, w)})

(* ---------------- the rules: (D, y, rows) -> kept rows ---------------------- *)
(* Tomek links among the rows R *)
TomekLinks(D, y, R) ==
    LET nn == TLCEval([i \in R |-> IF R = {i} THEN i ELSE Nearest(D, i, R \ {i})])
    IN  {<<i, nn[i]>> : i \in {a \in R : y[a] # y[nn[a]] /\ nn[nn[a]] = a}}
Tomek(D, y, rows, strategy) ==
    LET R == Range(rows)
        maj == RoleMaj(y, rows)
        links == TomekLinks(D, y, R)
        gone == IF strategy = "remove_both" THEN {lk[1] : lk \in links}
                ELSE {lk[1] : lk \in {q \in links : y[q[1]] = maj}}
    IN  SelectSeq(rows, LAMBDA r : r \notin gone)

(* label of the majority vote of the three nearest other rows *)
Vote(D, y, R, i) == ModeOf(LabelsOf(y, KNearest(D, i, R \ {i}, 3)))

ENN(D, y, rows, remove) ==
    LET R == Range(rows)
        role == CASE remove = "both" -> {RoleMin(y, rows), RoleMaj(y, rows)}
                  [] remove = "min" -> {RoleMin(y, rows)}
                  [] remove = "maj" -> {RoleMaj(y, rows)}
    IN  IF Len(rows) < 4 THEN rows
        ELSE SelectSeq(rows, LAMBDA r : ~(y[r] \in role /\ y[r] # Vote(D, y, R, r)))

NCR(D, y, rows) ==
    LET R == Range(rows)
        mn == RoleMin(y, rows)
        mj == RoleMaj(y, rows)
        wrong == {r \in R : y[r] # Vote(D, y, R, r)}
        gone == {r \in wrong : y[r] = mj}
                \cup UNION {{s \in Range(KNearest(D, r, R \ {r}, 3)) : y[s] = mj} : r \in {q \in wrong : y[q] = mn}}
    IN  SelectSeq(rows, LAMBDA r : r \notin gone)

(* Hart's condensing: the store starts with the minority and one majority row; *)
(* all majority rows misclassified by the store are added at once, repeatedly. *)
RECURSIVE Condense(_, _, _, _, _)
Condense(D, y, store, rest, maj) ==
    LET S == Range(store)
        wrong == SelectSeq(rest, LAMBDA r : y[Nearest(D, r, S)] # maj)
    IN  IF wrong = <<>> THEN store
        ELSE Condense(D, y, store \o wrong, SelectSeq(rest, LAMBDA r : r \notin Range(wrong)), maj)
CNN(D, y, rows) ==
    LET mj == RoleMaj(y, rows)
        majs == SelectSeq(rows, LAMBDA r : y[r] = mj)
        mins == SelectSeq(rows, LAMBDA r : y[r] # mj)
    IN  Condense(D, y, Append(mins, Head(majs)), Tail(majs), mj)

(* compositions; the roles are those of the intermediate dataset *)
OSS(D, y, rows) == CNN(D, y, Tomek(D, y, rows, "remove_majority"))
CNNTomek(D, y, rows) == Tomek(D, y, CNN(D, y, rows), "remove_majority")

FilterOf(name, opt, D, y) ==
    LET rows == Identity(Len(y))
    IN  CASE name = "TomekLinkRemoval" -> Tomek(D, y, rows, opt)
          [] name = "EditedNearestNeighbors" -> ENN(D, y, rows, opt)
          [] name = "NeighborhoodCleaningRule" -> NCR(D, y, rows)
          [] name = "CondensedNearestNeighbors" -> CNN(D, y, rows)
          [] name = "OneSidedSelection" -> OSS(D, y, rows)
          [] name = "CNNTomekLinks" -> CNNTomek(D, y, rows)

(* the rule is defined for this input *)
Defined(name, D, y) ==
    /\ Len(y) >= 2 /\ TwoClasses(y)
    /\ name = "NeighborhoodCleaningRule" => Len(y) >= 4
    /\ name = "OneSidedSelection" => BothPresent(y, Tomek(D, y, Identity(Len(y)), "remove_majority"))
=============================================================================
