----------------------------- MODULE Undersample -----------------------------
(* Undersampling (C10): keep the minority class and equally many distinct    *)
(* majority samples; "farthest" keeps those nearest to the synthetic         *)
(* samples, as measured by dist.                                             *)
EXTENDS SVBase, TLC
CONSTANTS MaxN, MaxDist
VARIABLES yin, dist, mode, kept
vars == <<yin, dist, mode, kept>>

Minority(y) == {k \in DOMAIN y : y[k] = MinLabel(y)}
Majority(y) == {k \in DOMAIN y : y[k] = MajLabel(y)}

Nearest(y, d, S) == \A a \in S, b \in Majority(y) \ S : d[a] <= d[b]
Selections(y, d, m) ==
    {S \in SUBSET Majority(y) : Cardinality(S) = NMin(y) /\ (m = "farthest" => Nearest(y, d, S))}

Init == /\ yin \in UNION {[1..k -> {0, 1}] : k \in 2..MaxN} /\ TwoClasses(yin)
        /\ mode \in {"random", "farthest"}
        /\ dist \in (IF mode = "farthest" THEN [DOMAIN yin -> 0..MaxDist] ELSE {[k \in DOMAIN yin |-> 0]})
        /\ kept = {}
Run == kept = {} /\ \E S \in Selections(yin, dist, mode) : kept' = S \cup Minority(yin) /\ UNCHANGED <<yin, dist, mode>>
Spec == Init /\ [][Run]_vars

Balanced == kept # {} => Cardinality({k \in kept : yin[k] = 0}) = Cardinality({k \in kept : yin[k] = 1})
KeepsMinority == kept # {} => Minority(yin) \subseteq kept
Possible == kept = {} => Selections(yin, dist, mode) # {}
=============================================================================
