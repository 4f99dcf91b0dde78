---------------------------- MODULE SelectionTrace ----------------------------
(* Validates selections and summaries recorded from the real code: means of  *)
(* the combinations scaled by 10^6 and computed directly, columns of the     *)
(* summaries as sequences of the numbers of the rows their values are from.  *)
EXTENDS TraceBase
VARIABLE l
T == INSTANCE Selection WITH Classes <- {}, Params <- {}, Means <- {}, MaxRows <- 0, table <- <<>>, lower <- FALSE, pending <- {}, best <- {}, winner <- 0
U == INSTANCE Summary WITH Labels <- {}, FoldIds <- {}, Columns <- {}, MaxRows <- 0, rows <- <<>>, todo <- {}, groups <- <<>>, order <- <<>>, columns <- <<>>
(* e.means[i] = [defined, mean]; equal up to the tolerance of the scaling *)
AtLeast(e, a, b) == IF e.lower THEN a <= b + 2 ELSE a >= b - 2
Best(e) == {i \in DOMAIN e.means : e.means[i].defined /\ \A j \in DOMAIN e.means : e.means[j].defined => AtLeast(e, e.means[i].mean, e.means[j].mean)}
Range(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Verdict(e) ==
    IF e.err # "" THEN {"it does not fail"}
    ELSE CASE e.op = "select" ->
                 Broken("configured as one of the combinations", e.configured)
            \cup Broken("no other combination is better", ~e.configured \/ e.chosen \in Best(e))
            \cup Broken("usable for sampling and fitting", e.usable)
           [] e.op = "summary" ->
                 Broken("every result in one group", \A i \in DOMAIN e.columns : U!EveryRowOnce(e.rows, e.groups, e.columns[i]))
            \cup Broken("results under their parameterisation", \A i \in DOMAIN e.columns : U!OnlyOwnRows(e.rows, e.groups, e.columns[i]))
            \cup Broken("one group per parameterisation", U!OneGroupPerLabel(e.groups))
            \cup Broken("columns aligned", U!Aligned(e.groups))
            \cup Broken("in the order of the folds", \A i \in DOMAIN e.columns : U!InFoldOrder(e.rows, e.groups, e.columns[i]))
           [] e.op = "cache" -> Broken("the cache is read completely", \A x \in Range(e.want) \cup Range(e.found) : Count(e.want, x) = Count(e.found, x))
           [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
