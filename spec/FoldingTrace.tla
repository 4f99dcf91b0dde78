----------------------------- MODULE FoldingTrace -----------------------------
(* Validates listings recorded from the real Folding: each against the       *)
(* definition of a correct folding, and all listings of the same dataset and *)
(* validator (in memory, JSON, pickle, before and after resets and losses)   *)
(* against each other.                                                       *)
EXTENDS TraceBase
VARIABLES l, grp, first
F == INSTANCE Folding WITH NSplits <- 1, NRepeats <- 1, MaxOps <- 0, disk <- {}, seen <- <<>>, ops <- <<>>

Repeats(e) == 0..(e.nr - 1)
Folds(e) == e.folds
Desc(e, k) ==
    LET d == Folds(e)[k].desc
        y == e.y
    IN  /\ d.repeat_idx = F!RepeatOf(k, e.ns) /\ d.fold_idx = F!FoldOf(k, e.ns) /\ d.split_idx = k - 1
        /\ d.n_splits = e.ns /\ d.n_repeats = e.nr /\ d.name = e.name
        /\ d.db_n = Len(y) /\ d.db_n_attr = e.d
        /\ d.n_min = F!NMin(y) /\ d.n_maj = F!NMaj(y)
        /\ F!Abs(d.imb - (F!NMaj(y) * 1000000) \div F!NMin(y)) <= 1
RowsOk(e) == \A k \in DOMAIN Folds(e) :
    /\ \A j \in DOMAIN Folds(e)[k].test : Folds(e)[k].test[j] \in DOMAIN e.y
    /\ \A j \in DOMAIN Folds(e)[k].train : Folds(e)[k].train[j] \in DOMAIN e.y
Paired(e, rows, labs) == Len(rows) = Len(labs) /\ \A j \in DOMAIN rows : labs[j] = e.y[rows[j]]
Verdict(e, f0) ==
    IF e.err # "" THEN {"raises"}
    ELSE    Broken("number of folds", Len(Folds(e)) = F!NFolds(e.ns, e.nr))
       \cup Broken("rows of the dataset", RowsOk(e))
       \cup (IF ~RowsOk(e) \/ Len(Folds(e)) # F!NFolds(e.ns, e.nr) THEN {} ELSE
               Broken("test sets partition the rows in every repeat", \A r \in Repeats(e) : F!Partition(e.y, Folds(e), e.ns, r))
          \cup Broken("training set is the complement", \A k \in DOMAIN Folds(e) : F!Complement(e.y, Folds(e)[k]))
          \cup Broken("class counts spread evenly", \A r \in Repeats(e) : F!Even(e.y, Folds(e), e.ns, r))
          \cup Broken("rows and labels paired", \A k \in DOMAIN Folds(e) :
                        Paired(e, Folds(e)[k].test, Folds(e)[k].ytest) /\ Paired(e, Folds(e)[k].train, Folds(e)[k].ytrain))
          \cup Broken("descriptor", \A k \in DOMAIN Folds(e) : Desc(e, k)))
       \cup Broken("the same folds in the same order whatever the way", f0 # <<>> => Folds(e) = f0)
Init == l = 1 /\ grp = "" /\ first = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               f0 == IF e.grp = grp THEN first ELSE <<>>
           IN /\ Report(l, IF e.op = "listing" THEN Verdict(e, f0) ELSE {"unknown event"})
              /\ grp' = e.grp
              /\ first' = IF f0 = <<>> THEN e.folds ELSE f0
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, grp, first>>
=============================================================================
