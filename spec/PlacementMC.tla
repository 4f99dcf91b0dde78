---------------------------- MODULE PlacementMC ----------------------------
(* Design check of the placement rules: every dataset of N rows on a line    *)
(* (rulers whose marks have pairwise different distances), every labelling,  *)
(* every neighbourhood size.  The state machine is the operational sampler:  *)
(* it classifies the rows, draws a base, draws a neighbour from the sorted   *)
(* list of neighbours and a position; the declarative rules have to allow    *)
(* whatever it produces, and it has to reach all they require.               *)
EXTENDS Placement

CONSTANTS Rulers, Ks, Classes, Careless

VARIABLES phase, e, base, out

vars == <<phase, e, base, out>>

N == 6
RulerOf == [golomb |-> <<0, 1, 4, 10, 12, 17>>, two |-> <<0, 1, 4, 10, 18, 23>>, clumps |-> <<0, 1, 3, 40, 44, 53>>, far |-> <<0, 2, 5, 11, 100, 230>>]
RECURSIVE SortedBy(_, _)   \* the elements of S in the order of the numbers f
SortedBy(S, f) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : f[x] <= f[y] IN <<x>> \o SortedBy(S \ {x}, f)
Abs(x) == IF x < 0 THEN -x ELSE x
RanksOf(p) ==
    LET d(i, j) == Abs(p[i] - p[j])
        D == {d(i, j) : i, j \in 1..N} \ {0}
    IN [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE Cardinality({x \in D : x <= d(i, j)})]]
Ranked == TLCEval([r \in DOMAIN RulerOf |-> RanksOf(RulerOf[r])])

Ordered == TLCEval([r \in DOMAIN RulerOf |-> SortedBy(1..N, RulerOf[r])])

Data(r, mn, cls, k, m) ==
    [cls |-> cls, mn |-> mn, R |-> Ranked[r], k |-> k, m |-> m, k1 |-> k, k2 |-> m, k3 |-> k, L |-> k, ndim |-> 2, copies |-> FALSE,
     thr |-> k * 3, radius |-> [i \in 1..N |-> k * 3], clu |-> [i \in 1..N |-> 1], irt |-> <<2, 1>>, weight |-> <<1, 2>>, kept |-> [i \in 1..N |-> TRUE],
     relabelled |-> mn, separated |-> FALSE, topology |-> "mesh", dth |-> TRUE, strategy |-> "weak_amp", threshold |-> <<1, 2>>, quota |-> 1, full |-> FALSE,
     ord |-> <<Ordered[r]>>]

Init ==
    /\ phase = "start" /\ base = 0 /\ out = [b |-> 0, s |-> <<>>, lo |-> 0, hi |-> 0]
    /\ \E r \in Rulers, mn \in [1..N -> BOOLEAN], cls \in Classes, k \in Ks, m \in Ks :
         /\ Cardinality({i \in 1..N : mn[i]}) \in 2..(N - 2)
         /\ e = Data(r, mn, cls, k, m)

(* what the samplers do: weights of the bases ... *)
Weight(i) ==
    LET around == MajAround(e, i, e.m)  w == Width(e, e.m) IN
    CASE e.cls = "Borderline_SMOTE1" -> IF (around = w /\ ~Careless) \/ 2 * around < w THEN 0 ELSE 1
      [] e.cls = "Borderline_SMOTE2" -> IF (around = w /\ ~Careless) \/ 2 * around < w THEN 0 ELSE 1
      [] e.cls = "ADASYN" -> MajAround(e, i, Smaller(e.k, Cardinality(Min(e)) - 1))
      [] e.cls = "MSMOTE" -> IF MajAround(e, i, e.k) = Width(e, e.k) /\ ~Careless THEN 0 ELSE 1
      [] OTHER -> 1

(* ... and the sorted list of the neighbours *)
Sorted(i, S) == SortedBy(S \ {i}, e.R[i])
Cut(s, k) == SubSeq(s, 1, Smaller(Len(s), k))
Neighbours(i) ==
    CASE e.cls = "Borderline_SMOTE1" -> Cut(Sorted(i, Min(e) \ Noise(e)), e.k)
      [] e.cls \in {"Borderline_SMOTE2", "Safe_Level_SMOTE"} -> Cut(Sorted(i, Rows(e)), e.k)
      [] e.cls = "MSMOTE" -> Cut(Sorted(i, Rows(e)), IF MajAround(e, i, e.k) = 0 THEN e.k ELSE 1)
      [] OTHER -> Cut(Sorted(i, Min(e)), e.k)

Start == phase = "start" /\ phase' = "new" /\ UNCHANGED <<e, base, out>>
Draw ==
    /\ phase = "new"
    /\ \E i \in Min(e) : Weight(i) > 0 /\ Neighbours(i) # <<>> /\ base' = i
    /\ phase' = "base" /\ UNCHANGED <<e, out>>
NothingToDraw == \A i \in Min(e) : Weight(i) = 0 \/ Neighbours(i) = <<>>
Decline == phase = "new" /\ NothingToDraw /\ phase' = "declined" /\ UNCHANGED <<e, base, out>>
Span(j) ==   \* greatest and least position towards row j
    IF e.cls = "Borderline_SMOTE2" /\ ~e.mn[j] THEN <<0, 5000>>
    ELSE IF e.cls = "Safe_Level_SMOTE"
         THEN LET a == SafeLevel(e, base)  b == SafeLevel(e, j) IN
              CASE a = 0 /\ b = 0 -> <<1, 0>>
                [] a > 0 /\ b = 0 -> <<0, 0>>
                [] a >= b -> <<0, (10000 * b) \div a>>
                [] OTHER -> <<((b - a) * 10000) \div b, 10000>>
         ELSE <<0, 10000>>
Place ==
    /\ phase = "base"
    /\ \E x \in DOMAIN Neighbours(base) :
         LET j == Neighbours(base)[x]  r == Span(j) IN
         /\ r[1] <= r[2]
         /\ \E t \in {r[1], (r[1] + r[2]) \div 2, r[2]} : out' = [b |-> base, s |-> <<j>>, lo |-> t, hi |-> t]
    /\ phase' = "placed" /\ UNCHANGED <<e, base>>
Next == Start \/ Draw \/ Decline \/ Place
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* whatever the sampler does is allowed by the rule *)
Sound == phase = "placed" => Allowed(e, Facts(e), out)
(* it declines only where the rule has nothing to place *)
Decides == phase = "declined" => ~Places(e)
(* the base is a minority row, the neighbour another row *)
Proper == phase = "placed" => e.mn[out.b] /\ out.s[1] # out.b

(* relations of the classifications; evaluated once per dataset *)
Lattice ==
    phase = "new" =>
    /\ SurelyDanger(e) \subseteq Danger(e) /\ Danger(e) \cap Noise(e) = {} /\ Danger(e) \cup Noise(e) \subseteq Min(e)
    /\ Secure(e) \cap Noisy(e) = {} /\ Border(e) = Min(e) \ Secure(e)
    /\ (e.m = e.k /\ e.k < Cardinality(Min(e))) => SurelyDanger(e) \subseteq Hard(e)
    /\ {i \in Min(e) : SafeLevel(e, i) = 0} = Noisy(e)
    /\ LET V == Levels(e, Min(e), e.L) IN
       /\ UNION {V[x] : x \in DOMAIN V} = Min(e)
       /\ \A x, z \in DOMAIN V : x # z => V[x] \cap V[z] = {}
    /\ \A i \in Min(e) : \A j \in Reach(e, {i}) : i \in Reach(e, {j})
    /\ StefRemoved(e) \cap StefRelabelled([e EXCEPT !.strategy = "weak_amp_relabel"]) \subseteq Maj(e)
    /\ \A s \in {"weak_amp", "weak_amp_relabel", "strong_amp"} :
         LET f == [e EXCEPT !.strategy = s] IN
         /\ StefRemoved(f) \cap StefRelabelled(f) = {}
         /\ StefRemoved(f) \cup StefRelabelled(f) = Maj(f) \ Safe(f)
         /\ \A i \in Maj(f) : StefCopies(f)[i] = 0
    /\ \A i \in Min(e) : StefCopies(e)[i] <= StefCopies([e EXCEPT !.strategy = "strong_amp"])[i]
    /\ SpyRelabelled(e) \subseteq SpyRelabelled([e EXCEPT !.threshold = <<3, 4>>])
    /\ SuwoNoise(e) \cap Min(e) = Noisy(e)
    /\ Informative(e) \subseteq Min(e) /\ (Noisy(e) # Min(e) /\ e.k = e.k1 => Informative(e) # {})
(* greater neighbourhoods allow more *)
Monotone == phase = "placed" /\ e.cls \in Plain => Allowed([e EXCEPT !.k = e.k + 1], Facts(e), out)
=============================================================================
