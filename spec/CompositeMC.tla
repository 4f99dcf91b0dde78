----------------------------- MODULE CompositeMC -----------------------------
(* The composites executed stage by stage on all small labelings; the        *)
(* polynomials on all small configurations of integers.                      *)
EXTENDS Composite
CONSTANTS Guarded, Positions, Coords, MaxMin, MaxGen, Levels, MaxLevels
SomePositions == <<0, 7, 16, 18, 45, 51>>
MorePositions == <<0, 2, 8, 20, 36, 46, 50>>
VARIABLES stage, kind, y, pos, n, kept
vars == <<stage, kind, y, pos, n, kept>>
D == DistMatrix("euclidean", [i \in DOMAIN pos |-> <<pos[i]>>])
Base == [i \in 1..Len(Positions) |-> Positions[i]]
Init ==
    /\ stage = "start" /\ kept = <<>>
    /\ kind \in {"SMOTE_TomekLinks", "SMOTE_ENN"}
    /\ y \in {v \in [1..Len(Positions) -> {0, 1}] : TwoClasses(v) /\ Count(v, 1) >= 2 /\ Count(v, 1) <= Count(v, 0)}
    /\ pos = [i \in DOMAIN Base |-> 8 * Base[i]] /\ n = Len(Positions)
(* a synthetic sample between two minority samples *)
Generate ==
    /\ stage = "start" /\ Len(y) - n < Count(Prefix(y, n), 0) - Count(Prefix(y, n), 1)
    /\ \E i, j \in {a \in 1..n : y[a] = 1} : \E s \in {1, 3, 7} :
          /\ i # j
          /\ LET p == pos[i] + ((pos[j] - pos[i]) * s) \div 8
                 q == Append(pos, p)
             IN  /\ GenericPosition(DistMatrix("euclidean", [a \in DOMAIN q |-> <<q[a]>>]), DOMAIN q)
                 /\ pos' = q /\ y' = Append(y, 1)
    /\ UNCHANGED <<stage, kind, n, kept>>
Clean ==
    /\ stage = "start" /\ Len(y) > n
    /\ kept' = (IF Guarded THEN Combined(kind, D, y, n) ELSE Cleaned(kind, D, y)) /\ stage' = "done"
    /\ UNCHANGED <<kind, y, pos, n>>
Next == Generate \/ Clean
Spec == Init /\ [][Next]_vars

Done == stage = "done"
NothingInvented == Done => Range(kept) \subseteq DOMAIN y /\ Cardinality(Range(kept)) = Len(kept)
NeverEmpty == Done => kept # <<>>
OrderKept == Done => \A i, j \in DOMAIN kept : i < j => kept[i] < kept[j]
ENNKeepsBalance == Done /\ kind = "SMOTE_ENN" => Count(LabelsOf(y, kept), 0) >= Count(LabelsOf(y, kept), 1) /\ Cardinality(Range(LabelsOf(y, kept))) = 2
(* both ends of every link of the SMOTE output are gone unless the original is returned *)
LinksGone == Done /\ kind = "SMOTE_TomekLinks" /\ kept # Original(n) => \A lk \in TomekLinks(D, y, DOMAIN y) : {lk[1], lk[2]} \cap Range(kept) = {}

(* laws of the closed forms over constants *)
Minorities == UNION {[1..m -> {<<c>> : c \in Coords}] : m \in 2..MaxMin}
Row1(s) == [i \in DOMAIN s |-> s[i][1]]
ASSUME StarCounts == \A X \in Minorities : \A k \in 1..MaxGen : Len(Star(X, k)) = k * Len(X) /\ Len(Bus(X, k)) = k * (Len(X) - 1)
ASSUME WithinHull == \A X \in Minorities : \A k \in 1..MaxGen : \A t \in {"star", "bus"} :
    LET q == StarScale(X, k) IN \A p \in Range(Placed(t, X, k)) : p[1] <= q * MaxOf(Range(Row1(X))) /\ p[1] >= q * MinOf(Range(Row1(X)))
(* equal steps from a point towards the end of its segment *)
ASSUME Even == \A X \in Minorities : \A k \in 2..MaxGen : \A t \in {"star", "bus"} :
    LET P == Placed(t, X, k) IN \A i \in 1..(Len(P) \div k) : \A s \in 1..(k - 2) : P[(i - 1) * k + s + 1][1] - P[(i - 1) * k + s][1] = P[(i - 1) * k + s + 2][1] - P[(i - 1) * k + s + 1][1]
(* at least half and at most one and a half times the requested number, for more than half a sample per point *)
ASSUME NearQuota == \A m \in 1..6 : \A q \in 1..30 : 2 * q > m => Abs(m * PerPoint(q, m) - q) * 2 <= m
ASSUME SkewOdd == \A m \in 1..MaxLevels : \A s \in [1..m -> Levels] : Moment3([i \in 1..m |-> 10 - s[i]]) = -Moment3(s)
ASSUME SkewShift == \A m \in 1..MaxLevels : \A s \in [1..m -> Levels] : Moment3([i \in 1..m |-> 3 + s[i]]) = Moment3(s)
(* laws of the selections *)
ASSUME RoughBounds == \A lv \in [1..3 -> {0, 1, 4, 10, 99}] : \A need \in 0..4 :
    LET g == RoughSet(lv, need, 0, <<>>)
    IN  /\ Len(g) <= need /\ Cardinality(Range(g)) = Len(g)
        /\ \A i \in Range(g) : \A j \in DOMAIN lv \ Range(g) : lv[i] <= lv[j]
        /\ Len(g) < need => Range(g) = {i \in DOMAIN lv : lv[i] <= 10}
ASSUME SomeWithin == \A M \in UNION {[1..m -> {<<c, d>> : c \in Coords, d \in {0, 3}}] : m \in 1..3} : WithinDeviation(M) # <<>>
=============================================================================
