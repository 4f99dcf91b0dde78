------------------------------- MODULE Sampler -------------------------------
(* Design of one oversampling call: a two-class dataset comes in (abstracted *)
(* to its label vector; a row is identified by its input position), the      *)
(* sampler either declines (returning a copy) or copies the input and        *)
(* appends synthetic minority samples one by one up to its quota.            *)
(* The operators judging a finished call are shared with SamplerTrace.tla.   *)
EXTENDS SVBase

(* ---------------- judgement of a finished call ---------------------------- *)
(* src: output row -> input row (0: synthetic)                                *)
PrefixKept(yin, yout, src) ==
    /\ Len(yout) >= Len(yin)
    /\ Prefix(yout, Len(yin)) = yin
    /\ Prefix(src, Len(yin)) = Identity(Len(yin))
OnlyMinorityAdded(yin, yout) ==
    \A i \in DOMAIN yout : i > Len(yin) => yout[i] = MinLabel(yin)
Declined(yin, yout, src) == yout = yin /\ src = Identity(Len(yin))
Gain(yin, yout) == Count(yout, MinLabel(yin)) - NMin(yin)
TooFew(yin, least) == NMin(yin) <= least

(* ---------------- the transition system ---------------------------------- *)
CONSTANTS MaxN, Props, Least
VARIABLES phase, yin, prop, kind, out

vars == <<phase, yin, prop, kind, out>>

Row == [src : 0..MaxN, lab : {0, 1}]
YOut == [i \in DOMAIN out |-> out[i].lab]
SrcOut == [i \in DOMAIN out |-> out[i].src]
CopyOf(y) == [i \in DOMAIN y |-> [src |-> i, lab |-> y[i]]]

Init ==
    /\ phase = "start"
    /\ yin \in UNION {{y \in [1..n -> {0, 1}] : TwoClasses(y)} : n \in 2..MaxN}
    /\ prop \in Props
    /\ kind \in {"exact", "atmost"}
    /\ out = <<>>

Q == Quota(yin, prop)

Decline ==                          \* too few samples, nothing to do, or the method gives up
    /\ phase = "start"
    /\ out' = CopyOf(yin)
    /\ phase' = "done"
    /\ UNCHANGED <<yin, prop, kind>>

Begin ==
    /\ phase = "start"
    /\ ~TooFew(yin, Least)
    /\ Q > 0
    /\ out' = CopyOf(yin)
    /\ phase' = "sampling"
    /\ UNCHANGED <<yin, prop, kind>>

Generate ==
    /\ phase = "sampling"
    /\ Gain(yin, YOut) < Q
    /\ out' = Append(out, [src |-> 0, lab |-> MinLabel(yin)])
    /\ UNCHANGED <<phase, yin, prop, kind>>

Finish ==
    /\ phase = "sampling"
    /\ Gain(yin, YOut) = Q \/ (kind = "atmost" /\ Gain(yin, YOut) <= Q)
    /\ phase' = "done"
    /\ UNCHANGED <<yin, prop, kind, out>>

Next == Decline \/ Begin \/ Generate \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---------------- properties ---------------------------------------------- *)
Contract ==
    phase = "done" =>
        /\ PrefixKept(yin, YOut, SrcOut)
        /\ OnlyMinorityAdded(yin, YOut)
        /\ Labels(YOut) = Labels(yin)
QuotaLaw ==
    phase = "done" =>
        /\ Gain(yin, YOut) <= Q
        /\ kind = "exact" => (Gain(yin, YOut) = Q \/ Declined(yin, YOut, SrcOut))
        /\ TooFew(yin, Least) => Declined(yin, YOut, SrcOut)
        /\ Q = 0 => Declined(yin, YOut, SrcOut)
BalanceAtOne ==
    (phase = "done" /\ kind = "exact" /\ prop[1] = prop[2] /\ ~Declined(yin, YOut, SrcOut))
        => Count(YOut, 0) = Count(YOut, 1)
MinorityNeverShrinks == phase # "start" => Gain(yin, YOut) >= 0
Terminates == <>(phase = "done")
=============================================================================
