------------------------------- MODULE Folding -------------------------------
(* Cross-validation foldings (C11).  Part 1: what a correct folding of a     *)
(* labelled dataset is.  Part 2: a folding object with cache files under any *)
(* sequence of constructing, caching, listing, losing files and resetting.   *)
EXTENDS SVBase, TLC

(* ---------- Part 1: folds = sequence of [test, train], row sets given as sequences of row numbers ---------- *)
NFolds(ns, nr) == ns * nr
RepeatOf(k, ns) == (k - 1) \div ns          \* k = 1, 2, ...; repeats and folds count from zero
FoldOf(k, ns) == (k - 1) % ns
InRepeat(folds, ns, r) == {k \in DOMAIN folds : RepeatOf(k, ns) = r}
NoDup(s) == Cardinality(Range(s)) = Len(s)

Partition(y, folds, ns, r) ==
    /\ \A k \in InRepeat(folds, ns, r) : NoDup(folds[k].test) /\ Range(folds[k].test) # {}
    /\ \A a, b \in InRepeat(folds, ns, r) : a # b => Range(folds[a].test) \cap Range(folds[b].test) = {}
    /\ UNION {Range(folds[k].test) : k \in InRepeat(folds, ns, r)} = DOMAIN y
Complement(y, f) == NoDup(f.train) /\ Range(f.train) = DOMAIN y \ Range(f.test)
ClassCount(y, rows, v) == Cardinality({i \in Range(rows) : y[i] = v})
Even(y, folds, ns, r) ==
    \A v \in Labels(y) : \A a, b \in InRepeat(folds, ns, r) :
        Abs(ClassCount(y, folds[a].test, v) - ClassCount(y, folds[b].test, v)) <= 1

(* ---------- Part 2: the cache ---------- *)
CONSTANTS NSplits, NRepeats, MaxOps
VARIABLES disk,    \* set of fold numbers present on disk
          seen,    \* the last listing
          ops      \* operations performed
fvars == <<disk, seen, ops>>
AllFolds == 1..NFolds(NSplits, NRepeats)

FInit == disk = {} /\ seen = <<>> /\ ops = <<>>
Do(name) == Len(ops) < MaxOps /\ ops' = Append(ops, name)
Construct == Do("construct") /\ UNCHANGED <<disk, seen>>
Reset == Do("reset") /\ disk' = {} /\ UNCHANGED seen
CacheFoldings == Do("cache") /\ disk' = AllFolds /\ UNCHANGED seen
InMemory == Do("memory") /\ seen' = [k \in AllFolds |-> k] /\ UNCHANGED disk
(* listing completes an incomplete set of files first *)
Files == Do("files") /\ disk' = AllFolds /\ seen' = [k \in AllFolds |-> k]
Lose(k) == k \in disk /\ Do(IF k = 1 THEN "lose first" ELSE "lose last") /\ disk' = disk \ {k} /\ UNCHANGED seen
FNext == Construct \/ Reset \/ CacheFoldings \/ InMemory \/ Files \/ \E k \in {1, NFolds(NSplits, NRepeats)} : Lose(k)
FSpec == FInit /\ [][FNext]_fvars
ListingComplete == seen # <<>> => seen = [k \in AllFolds |-> k]
=============================================================================
