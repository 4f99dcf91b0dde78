------------------------------ MODULE SimplexMC ------------------------------
(* Exhaustive check of the enumeration and of the deterministic selection.   *)
EXTENDS Simplex, TLC
CONSTANTS MaxW, MaxLen, MaxQ
VARIABLES w, n, phase
Init == phase = "start" /\ n = 0 /\ w = <<>>
Extend == phase = "start" /\ Len(w) < MaxLen /\ \E x \in 0..MaxW : w' = Append(w, x) /\ UNCHANGED <<n, phase>>
Choose == phase = "start" /\ SumSeq(w) > 0 /\ phase' = "chosen" /\ n' \in 0..MaxQ /\ UNCHANGED w
Next == Extend \/ Choose
Spec == Init /\ [][Next]_<<w, n, phase>>
Allocated == phase = "chosen" => ShareOK(Allocate(n, w), n, w)
NothingForNothing == phase = "chosen" => \A i \in DOMAIN w : w[i] = 0 => Allocate(n, w)[i] = 0
EnoughFractional == phase = "chosen" =>
    LET W == SumSeq(w) IN SumSeq([i \in DOMAIN w |-> Ceil(n * w[i], W)]) - n <= Len(Fractional(n, w))
(* enumeration of a neighbourhood of Len(w)+1 entries *)
Ind == [b \in 1..2 |-> [c \in 1..(Len(w) + 1) |-> b + c - 1]]
Enumerated == phase = "start" => \A d \in 1..4 :
    LET sx == Simplices(Ind, d)
        o == Order(d, Ind)
    IN /\ Len(sx) = 2 * Binomial(Len(w), o - 1)
       /\ \A k \in DOMAIN sx : Len(sx[k].s) = o /\ sx[k].s[1] \in 1..2
       /\ \A j, k \in DOMAIN sx : j # k => <<sx[j].s[1], sx[j].cols>> # <<sx[k].s[1], sx[k].cols>>
(* k evenly spaced points cut the edge into k + 1 equal parts *)
Spaced == \A k \in 1..6 : LET p == EdgePoints(<<0, 0>>, <<840, 420>>, k) IN
    \A j \in 1..k : p[j][1] * (k + 1) = 840 * j /\ OnSegment(p[j], <<0, 0>>, <<840, 420>>)
Inv == Allocated /\ NothingForNothing /\ EnoughFractional /\ Enumerated /\ Spaced
=============================================================================
