---------------------------- MODULE CompositeTrace ----------------------------
(* Validates recorded calls of the composite samplers.                       *)
(* combine    [name, y, D, n, keep, yout]: y, D of the SMOTE output          *)
(* graph      [near, k, min, delegates, equal]                               *)
(* polynomial [topology, X, y, p, got, exact, yout]: integer minority rows,  *)
(*            points times Len(X) * (k + 1)                                  *)
(* mesh, curve, nothing, ipf, rsb, msyn, gazzah, append                      *)
EXTENDS Composite, TraceBase
VARIABLE l
Mn(e) == MinLabel(e.y)
Mj(e) == MajLabel(e.y)
SameBag(a, b) == Len(a) = Len(b) /\ \A v \in Range(a) : Count(a, v) = Count(b, v)

JudgeCombine(e) ==
    IF ~GenericPosition(e.D, DOMAIN e.D) \/ Len(e.D) # Len(e.y) THEN {"harness: input outside the scope"}
    ELSE LET rows == Combined(e.name, e.D, e.y, e.n)
         IN     Broken("the cleaned SMOTE output", e.keep = rows)
           \cup Broken("labels of the SMOTE output", e.yout = LabelsOf(e.y, rows))

JudgeGraph(e) ==
    LET D == Delegates(SafeLevels(e.near, e.k, Mn(e)))
    IN  Broken("the output of the delegate of the skewness", \E i \in DOMAIN e.delegates : e.delegates[i] \in D /\ e.equal[i])

Labelled(e, m) == e.yout = e.y \o [i \in 1..m |-> Mn(e)]
JudgePolynomial(e) ==
    LET q == Quota(e.y, e.p)
        k == PerPoint(q, Len(e.X))
        P == IF q = 0 THEN <<>> ELSE Placed(e.topology, e.X, k)
    IN     Broken("original rows first", e.prefix)
      \cup Broken("evenly on the segments", e.exact /\ SameBag(e.got, P))
      \cup Broken("labels of the minority", Labelled(e, Len(P)))

(* coordinates times 10000 *)
Close(m, a, b) == Abs(a - 10000 * b) <= m
JudgeMesh(e) ==
    LET q == Quota(e.y, e.p)
    IN     Broken("original rows first", e.prefix)
      \cup Broken("the quota", Len(e.got) = q)
      \cup Broken("on segments between minority rows",
                  \A g \in Range(e.got) : \E i, j \in DOMAIN e.X : \E m \in 2..(q + 1) : \E s \in 0..m :
                      \A c \in DOMAIN g : Close(m, m * g[c], m * e.X[i][c] + s * (e.X[j][c] - e.X[i][c])))
      \cup Broken("labels of the minority", Labelled(e, q))

(* fitted polynomials: every coordinate in the range of its polynomial *)
JudgeCurve(e) ==
    LET q == Quota(e.y, e.p)
    IN     Broken("original rows first", e.prefix)
      \cup Broken("the quota", Len(e.got) = q)
      \cup Broken("on the fitted polynomials", \A g \in Range(e.got) : \A c \in DOMAIN g : e.lo[c] <= g[c] /\ g[c] <= e.hi[c])
      \cup Broken("labels of the minority", Labelled(e, q))

JudgeNothing(e) ==
    IF e.option = "none" THEN Broken("the input unchanged", e.raised = "" /\ e.same) \cup Broken("copies", e.copied)
    ELSE Broken("the error asked for", e.raised = (IF e.option = "raise_value_error" THEN "ValueError" ELSE "RuntimeError"))

(* calls: [rows, train, wrong] in the order of the predictions; wrong[i] is 1 if row rows[i] is misclassified *)
JudgeIPF(e) ==
    IF Quota(Prefix(e.y, e.n), e.p) = 0 THEN Broken("the input unchanged", e.calls = <<>> /\ e.out = Identity(e.n) /\ e.yout = e.y)
    ELSE LET F == Min(e.folds, NMin(Prefix(e.y, e.n)))
             R == Len(e.calls) \div F
             fold(r, f) == e.calls[(r - 1) * F + f]
             rows(r) == fold(r, 1).rows
             gone(r) == LET w == [i \in DOMAIN rows(r) |-> SumSeq([f \in 1..F |-> fold(r, f).wrong[i]])]
                        IN  Condemned(e.voting, w, F)
             left(r) == LET g == gone(r) IN [j \in 1..Cardinality(DOMAIN rows(r) \ g) |-> rows(r)[Ascending(DOMAIN rows(r) \ g)[j]]]
             few == [r \in 1..R |-> Few(Cardinality(gone(r)), Len(left(r)), e.share)]
         IN  IF R = 0 \/ Len(e.calls) # R * F THEN {"one classifier per fold"}
             ELSE   Broken("all classifiers vote on all rows", \A r \in 1..R : \A f \in 1..F : fold(r, f).rows = rows(r))
               \cup Broken("the first round is on the SMOTE output", rows(1) = Identity(Len(e.y)))
               \cup Broken("each fold is left out once", \A r \in 1..R :
                       /\ \A f \in 1..F : Range(fold(r, f).train) \subseteq Range(rows(r))
                       /\ \A i \in Range(rows(r)) : Cardinality({f \in 1..F : i \notin Range(fold(r, f).train)}) = 1)
               \cup Broken("the condemned rows are removed", (\A r \in 1..(R - 1) : rows(r + 1) = left(r)) /\ e.out = left(R))
               \cup Broken("ends after quiet rounds", EndsWith(few, e.K))
               \cup Broken("labels of the SMOTE output", e.yout = LabelsOf(e.y, e.out))

JudgeRSB(e) ==
    LET S == IF e.level = <<>> THEN <<>> ELSE RoughSelection(e.level, e.y)
    IN     Broken("original rows first", e.prefix)
      \cup Broken("the samples of the rough sets in order", e.out = S)
      \cup Broken("labels of the minority", Labelled(e, Len(S)))

JudgeMSYN(e) ==
    LET q == Quota(e.y, e.p)
        S == IF q = 0 THEN <<>> ELSE Lowest(e.rank, q)
    IN     Broken("original rows first", e.prefix)
      \cup Broken("the samples of the lowest scores", e.out = S)
      \cup Broken("labels of the minority", Labelled(e, Len(S)))

JudgeGazzah(e) ==
    LET q == Quota(e.y, e.p)
        k == PerPoint(q, Len(e.X))
        P == IF q = 0 THEN <<>> ELSE Star(e.X, k)
        W == WithinDeviation(e.M)
    IN  IF q = 0 THEN Broken("the input unchanged", e.same)
        ELSE   Broken("the majority within the deviation", e.keep = W)
          \cup Broken("evenly on the segments", e.exact /\ SameBag(e.got, P))
          \cup Broken("labels", e.yout = [i \in 1..Len(W) |-> Mj(e)] \o [i \in 1..Len(P) |-> Mn(e)])

(* the samples of several generators appended to the input *)
JudgeAppend(e) ==
       Broken("the samples of the parts", e.same)
  \cup Broken("labels of the input", Prefix(e.yout, Len(e.y)) = e.y)
  \cup Broken("labels are class labels", Len(e.yout) = e.total /\ Range(e.yout) \subseteq Range(e.y))

Judge(e) ==
    IF e.op # "nothing" /\ e.err # "" THEN {"raises"}
    ELSE IF TooFew(IF e.op \in {"combine", "ipf"} THEN Prefix(e.y, e.n) ELSE e.y) THEN Broken("too few minority rows: the input unchanged", e.untouched)
    ELSE CASE e.op = "combine" -> JudgeCombine(e) [] e.op = "graph" -> JudgeGraph(e) [] e.op = "polynomial" -> JudgePolynomial(e)
           [] e.op = "mesh" -> JudgeMesh(e) [] e.op = "curve" -> JudgeCurve(e) [] e.op = "nothing" -> JudgeNothing(e)
           [] e.op = "ipf" -> JudgeIPF(e) [] e.op = "rsb" -> JudgeRSB(e) [] e.op = "msyn" -> JudgeMSYN(e)
           [] e.op = "gazzah" -> JudgeGazzah(e) [] e.op = "append" -> JudgeAppend(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
