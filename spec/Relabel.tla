------------------------------- MODULE Relabel -------------------------------
(* Class roles and renaming (C07).  A renaming is a function on the two      *)
(* label values.  The roles (minority = rarer class, on ties the larger      *)
(* label) commute with order preserving renamings always and with exchanging *)
(* the labels whenever the class sizes differ.                               *)
EXTENDS SVBase, TLC
CONSTANTS MaxN, From, To
VARIABLES y, ren
vars == <<y, ren>>

Image(s, r) == [k \in DOMAIN s |-> r[s[k]]]
Injective(r) == \A a, b \in DOMAIN r : a # b => r[a] # r[b]
OrderPreserving(r) == \A a, b \in DOMAIN r : a < b => r[a] < r[b]
Tied(s) == NMin(s) = NMaj(s)

Init == /\ y \in UNION {[1..k -> From] : k \in 2..MaxN} /\ TwoClasses(y)
        /\ ren \in [Labels(y) -> To] /\ Injective(ren)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

MinorityIsRarer == Count(y, MinLabel(y)) <= Count(y, MajLabel(y))
TieIsLarger == Tied(y) => MinLabel(y) > MajLabel(y)
RolesCommute == (OrderPreserving(ren) \/ ~Tied(y)) => MinLabel(Image(y, ren)) = ren[MinLabel(y)]
=============================================================================
