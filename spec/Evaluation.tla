------------------------------ MODULE Evaluation ------------------------------
(* The evaluation of oversamplers: for every dataset and fold each           *)
(* oversampler is applied and each classifier is fitted on its output.  In   *)
(* memory a worker executes the whole work of a fold; with a cache first all *)
(* samplings of a dataset are provided (computed or taken from the store     *)
(* left by earlier evaluations), then the evaluations of their results.      *)
(* Jobs are taken by at most Workers workers in any order.                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Datasets, Folds, Overs, Classifiers, Workers, Modes
VARIABLES mode, store, data, cur, jobs, active, stage, results
vars == <<mode, store, data, cur, jobs, active, stage, results>>

Combos == Datasets \X Folds \X Overs \X Classifiers
FoldJobs(d) == {[kind |-> "fold", d |-> d, f |-> f, o |-> "all"] : f \in Folds}
SampJobs(d) == {[kind |-> "sample", d |-> d, f |-> f, o |-> o] : f \in Folds, o \in Overs}
EvalJobs(d) == {[kind |-> "eval", d |-> d, f |-> f, o |-> o] : f \in Folds, o \in Overs}
Of(j) == IF j.kind = "fold" THEN {j.d} \X {j.f} \X Overs \X Classifiers ELSE {j.d} \X {j.f} \X {j.o} \X Classifiers

(* datasets are processed in order; data: those left *)
Init ==
    /\ mode \in Modes
    /\ store \in (IF mode = "memory" THEN {{}} ELSE SUBSET (Datasets \X Folds \X Overs))
    /\ data = Datasets /\ cur = "none" /\ jobs = {} /\ active = {} /\ stage = "next dataset"
    /\ results = [c \in Combos |-> 0]
NextDataset ==
    /\ stage = "next dataset"
    /\ IF data = {} THEN stage' = "done" /\ UNCHANGED <<data, cur, jobs>>
       ELSE LET d == CHOOSE x \in data : TRUE IN
            /\ data' = data \ {d} /\ cur' = d
            /\ IF mode = "memory" THEN stage' = "folds" /\ jobs' = FoldJobs(d) ELSE stage' = "samplings" /\ jobs' = SampJobs(d)
    /\ UNCHANGED <<mode, store, active, results>>
Take(j) ==
    /\ j \in jobs /\ Cardinality(active) < Workers
    /\ jobs' = jobs \ {j} /\ active' = active \cup {j}
    /\ UNCHANGED <<mode, store, data, cur, stage, results>>
Finish(j) ==
    /\ j \in active /\ active' = active \ {j}
    /\ store' = IF j.kind = "sample" THEN store \cup {<<j.d, j.f, j.o>>} ELSE store
    /\ results' = IF j.kind = "sample" THEN results ELSE [c \in Combos |-> results[c] + (IF c \in Of(j) THEN 1 ELSE 0)]
    /\ UNCHANGED <<mode, data, cur, jobs, stage>>
Turn ==
    /\ stage \in {"folds", "samplings", "evaluations"} /\ jobs = {} /\ active = {}
    /\ IF stage = "samplings" THEN stage' = "evaluations" /\ jobs' = EvalJobs(cur)
       ELSE stage' = "next dataset" /\ jobs' = {}
    /\ UNCHANGED <<mode, store, data, cur, active, results>>
Next == NextDataset \/ (\E j \in jobs : Take(j)) \/ (\E j \in active : Finish(j)) \/ Turn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------- properties ------------------------------ *)
AtMostOnce == \A c \in Combos : results[c] <= 1
CoversAll == stage = "done" => \A c \in Combos : results[c] = 1
AtMostWorkers == Cardinality(active) <= Workers
EvaluatedFromStore == \A j \in active \cup jobs : j.kind = "eval" => <<j.d, j.f, j.o>> \in store
Terminates == <>(stage = "done")

(* ----------------------------- aggregated table -------------------------- *)
(* a table over the results: for each (dataset, oversampler, classifier) the *)
(* mean and standard deviation over its folds.  Scores are integers; a mean  *)
(* m is right if |n m - sum| is within tolerance, a deviation s if           *)
(* |(n-1) s^2 - sum (x-m)^2| is.                                             *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
AbsV(x) == IF x < 0 THEN -x ELSE x
MeanRight(xs, m) == AbsV(Len(xs) * m - Sum(xs)) <= Len(xs)
StdRight(xs, m, s) ==
    LET dev == [i \in DOMAIN xs |-> (xs[i] - m) * (xs[i] - m)]
        n == Len(xs)
    IN  AbsV((n - 1) * s * s - Sum(dev)) <= 4 * n * (s + 2)
=============================================================================
