----------------------------- MODULE OSClassifier -----------------------------
(* The classifier wrapping an oversampler and a classifier (C21).  A wrapper *)
(* has parameters (the specifications), objects built from them and a fitted *)
(* pipeline: which oversampler, classifier and training data it is of.       *)
(* Objects: the wrapper in use; cloning starts an unfitted one of the same   *)
(* parameters, which replaces it (the original is forgotten).                *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Overs, Classifiers, Datasets, MaxOps, Rebuild
VARIABLES over, cls, overObj, clsObj, model, last, ops
vars == <<over, cls, overObj, clsObj, model, last, ops>>
None == "none"
Pipeline(o, c, d) == [o |-> o, c |-> c, d |-> d]
Unfitted == Pipeline(None, None, None)

Init ==
    /\ over \in Overs /\ cls \in Classifiers
    /\ overObj = over /\ clsObj = cls
    /\ model = Unfitted /\ last = None /\ ops = 0
Count == ops < MaxOps /\ ops' = ops + 1
Fit(d) ==
    /\ Count /\ last' = d
    /\ model' = Pipeline(overObj, clsObj, d)
    /\ UNCHANGED <<over, cls, overObj, clsObj>>
SetOver(o) ==
    /\ Count /\ over' = o
    /\ IF Rebuild THEN overObj' = o /\ clsObj' = cls /\ model' = Unfitted ELSE UNCHANGED <<overObj, clsObj, model>>
    /\ UNCHANGED <<cls, last>>
SetClassifier(c) ==
    /\ Count /\ cls' = c
    /\ IF Rebuild THEN clsObj' = c /\ overObj' = over /\ model' = Unfitted ELSE UNCHANGED <<overObj, clsObj, model>>
    /\ UNCHANGED <<over, last>>
Clone ==
    /\ Count /\ model' = Unfitted
    /\ overObj' = over /\ clsObj' = cls
    /\ UNCHANGED <<over, cls, last>>
Next == (\E d \in Datasets : Fit(d)) \/ (\E o \in Overs : SetOver(o)) \/ (\E c \in Classifiers : SetClassifier(c)) \/ Clone
Spec == Init /\ [][Next]_vars

(* predictions are those of the pipeline configured now and fitted last *)
ConfiguredPipeline == model # Unfitted => model = Pipeline(over, cls, last)
ObjectsFollowParameters == overObj = over /\ clsObj = cls

(* number of hidden neurons of the MLP wrapper: f = [sqrt, num, den] *)
Hidden(dim, f) ==
    LET h == IF f.sqrt THEN CHOOSE r \in 0..dim : r * r <= dim /\ (r + 1) * (r + 1) > dim ELSE (dim * f.num) \div f.den
    IN  IF h < 1 THEN 1 ELSE h

(* ----------------- the life cycle as a function of its operations -------- *)
(* an operation is [op, o, c, d]; the state [o, c, model]                     *)
Step(s, a) ==
    CASE a.op = "fit" -> [s EXCEPT !.model = Pipeline(s.o, s.c, a.d)]
      [] a.op = "set oversampler" -> [s EXCEPT !.o = a.o, !.model = Unfitted]
      [] a.op = "set classifier" -> [s EXCEPT !.c = a.c, !.model = Unfitted]
      [] a.op = "set both" -> [s EXCEPT !.o = a.o, !.c = a.c, !.model = Unfitted]
      [] a.op = "clone" -> [s EXCEPT !.model = Unfitted]
      [] OTHER -> s
RECURSIVE After(_, _, _)
After(s, as, n) == IF n = 0 THEN s ELSE Step(After(s, as, n - 1), as[n])
=============================================================================
