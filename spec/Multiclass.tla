------------------------------ MODULE Multiclass ------------------------------
(* Multiclass oversampling (C09) on class sizes: classes in decreasing order *)
(* of size are raised, one after the other, against all other original       *)
(* samples ("vs_many") or against the already raised larger classes          *)
(* ("successive").                                                           *)
EXTENDS SVBase, TLC
CONSTANTS MaxClasses, MaxSize, Strategies, Least

VARIABLES n,       \* class sizes, non-increasing
          strat, i,   \* strategy, next class
          out      \* resulting sizes of the classes handled so far
vars == <<n, strat, i, out>>

Total(s) == SumSeq(s)
SizeVectors == {s \in UNION {[1..k -> 1..MaxSize] : k \in 2..MaxClasses} : \A a, b \in DOMAIN s : a <= b => s[a] >= s[b]}

Init == n \in SizeVectors /\ strat \in Strategies /\ i = 2 /\ out = <<n[1]>>

(* the binary problem: class i against the rest; the samples requested by the proportion are floor(p*(n_maj - n_min)) *)
Rest == IF strat = "vs_many" THEN Total(n) - n[i] ELSE Total(out)
Nominal == IF strat = "vs_many" THEN Total(n) - 2 * n[i] ELSE (i - 1) * n[1] - n[i]   \* nominal n_maj - n_min
Wanted == n[1] - n[i]
Generated == IF Wanted = 0 \/ n[i] <= Least THEN 0 ELSE ((Rest - n[i]) * Wanted) \div Nominal
Step == /\ i <= Len(n)
        /\ out' = Append(out, n[i] + Generated)
        /\ i' = i + 1 /\ UNCHANGED <<n, strat>>
Spec == Init /\ [][Step]_vars

(* the contract *)
Raised(orig, final, big) == IF orig <= Least THEN final = orig ELSE final \in {Max(orig, big - 1), big}
Equalised == \A k \in DOMAIN out : Raised(n[k], out[k], n[1])
ExactVsMany == strat = "vs_many" => \A k \in DOMAIN out : n[k] > Least => out[k] = n[1]
NeverAboveMajority == \A k \in DOMAIN out : out[k] <= n[1]
MajorityUntouched == out[1] = n[1]
=============================================================================
