------------------------------ MODULE QueriesMC ------------------------------
(* Exhaustive check of the query semantics on all small registries, and      *)
(* enumeration of the queries replayed on the real code.                     *)
EXTENDS Queries, TLC, Json
CONSTANTS MaxReg
MinusOne == -1
VARIABLES reg, q
NoFilter == [use_within |-> FALSE, within |-> <<>>, use_exclude |-> FALSE, exclude |-> <<>>, use_gauss |-> FALSE, gauss |-> FALSE, use_dim |-> FALSE, dim |-> <<>>]
W == {<<"random">>, <<"deterministic">>, <<"random", "deterministic">>, <<>>}
D == {<<1>>, <<2>>, <<3>>, <<2, 3>>, <<1, 4>>}
Filters == {[use_within |-> uw, within |-> w, use_exclude |-> ue, exclude |-> x, use_gauss |-> ug, gauss |-> g, use_dim |-> ud, dim |-> d] :
               uw, ue, ug, ud \in BOOLEAN, w \in W, x \in W, g \in BOOLEAN, d \in D}
Canonical(f) == (~f.use_within => f.within = <<>>) /\ (~f.use_exclude => f.exclude = <<>>) /\ (~f.use_gauss => ~f.gauss) /\ (~f.use_dim => f.dim = <<1>>)
Ns == {-1, 0, 1, 2, 7, 200}
Queries == [kind : {"all", "proportion", "metric_learning", "multiclass"}, filter : {NoFilter}, n : Ns]
           \cup [kind : {"simplex"}, filter : {f \in Filters : Canonical(f)}, n : {-1, 3}]
Atts == {[name |-> "", categories |-> c, params |-> p, rank |-> r, ss |-> s] :
            c \in {<<>>, <<"metric_learning">>, <<"changes_majority", "metric_learning">>}, p \in {<<>>, <<"proportion">>}, r \in 1..2,
            s \in {[has |-> FALSE, within |-> "none", gauss |-> FALSE, dim |-> 0], [has |-> TRUE, within |-> "random", gauss |-> TRUE, dim |-> 2]}}
Init == q \in Queries /\ reg = <<>>
Next == /\ q.kind # "simplex" \/ q.n = 3
        /\ Len(reg) < MaxReg
        /\ \E a \in Atts : reg' = Append(reg, [a EXCEPT !.name = ToString(Len(reg) + 1)])
        /\ UNCHANGED q
Spec == Init /\ [][Next]_<<reg, q>>
A == Answer(reg, q)
Exact == q.n = -1 => \A i \in DOMAIN reg : In(reg[i], A) <=> Satisfies(reg[i], q)
OnlyMatching == \A i \in DOMAIN A : Satisfies(A[i], q) /\ In(A[i], reg)
Counted == q.n >= 0 => Len(A) = Min(q.n, Len(Matching(reg, q)))
Fastest == q.n >= 0 => \A i \in DOMAIN A : \A j \in DOMAIN reg : (Satisfies(reg[j], q) /\ ~In(reg[j], A)) => ~Faster(reg[j], A[i])
Sorted == q.n >= 0 => \A i, j \in DOMAIN A : i < j => ~Faster(A[j], A[i])
InOrder == q.n = -1 => \A i, j \in DOMAIN A : i < j => (CHOOSE k \in DOMAIN reg : reg[k] = A[i]) < (CHOOSE k \in DOMAIN reg : reg[k] = A[j])
Emit == IF reg = <<>> THEN PrintT(<<"CASE", ToJson(q)>>) ELSE TRUE
Inv == Exact /\ OnlyMatching /\ Counted /\ Fastest /\ Sorted /\ InOrder /\ Emit
=============================================================================
