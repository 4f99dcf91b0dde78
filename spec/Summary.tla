------------------------------- MODULE Summary -------------------------------
(* The summary of raw results: rows arrive in any order, each naming its     *)
(* parameterisation (label) and fold; they are collected under their label,  *)
(* put into the order of their folds (the order of equal folds is free) and  *)
(* each column is extracted in that order.                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Labels, FoldIds, Columns, MaxRows
VARIABLES rows, todo, groups, order, columns
vars == <<rows, todo, groups, order, columns>>

Init ==
    /\ rows \in UNION {[1..n -> [label : Labels, fold : FoldIds]] : n \in 0..MaxRows}
    /\ todo = DOMAIN rows
    /\ groups = [x \in Labels |-> {}]
    /\ order = [x \in Labels |-> <<>>]
    /\ columns = [x \in Labels |-> [c \in Columns |-> <<>>]]
Collect(i) ==
    /\ i \in todo /\ todo' = todo \ {i}
    /\ groups' = [groups EXCEPT ![rows[i].label] = @ \cup {i}]
    /\ UNCHANGED <<rows, order, columns>>
Orders(g) == {s \in [1..Cardinality(g) -> g] :
                 /\ \A a, b \in DOMAIN s : a # b => s[a] # s[b]
                 /\ \A a, b \in DOMAIN s : a < b => rows[s[a]].fold <= rows[s[b]].fold}
Arrange(x) ==
    /\ todo = {} /\ groups[x] # {} /\ order[x] = <<>>
    /\ \E s \in Orders(groups[x]) : order' = [order EXCEPT ![x] = s]
    /\ UNCHANGED <<rows, todo, groups, columns>>
Extract(x, c) ==
    /\ order[x] # <<>> /\ columns[x][c] = <<>>
    /\ columns' = [columns EXCEPT ![x][c] = order[x]]
    /\ UNCHANGED <<rows, todo, groups, order>>
Next == (\E i \in todo : Collect(i)) \/ (\E x \in Labels : Arrange(x) \/ \E c \in Columns : Extract(x, c))
Spec == Init /\ [][Next]_vars

Range(s) == {s[i] : i \in DOMAIN s}
(* the judgements, over rows (sequence of [id, label, fold]) and groups      *)
(* (sequence of [label, cols]), a column being the sequence of row numbers   *)
EveryRowOnce(rs, gs, c) == \A r \in Range(rs) : Cardinality({<<i, j>> \in {<<i, j>> \in (DOMAIN gs) \X (1..Len(rs)) : j \in DOMAIN gs[i].cols[c]} : gs[i].cols[c][j] = r.id}) = 1
OnlyOwnRows(rs, gs, c) == \A i \in DOMAIN gs : \A j \in DOMAIN gs[i].cols[c] : \E r \in Range(rs) : r.id = gs[i].cols[c][j] /\ r.label = gs[i].label
OneGroupPerLabel(gs) == \A i, j \in DOMAIN gs : gs[i].label = gs[j].label => i = j
Aligned(gs) == \A i \in DOMAIN gs : \A c, d \in DOMAIN gs[i].cols : gs[i].cols[c] = gs[i].cols[d]
FoldOf(rs, id) == (CHOOSE r \in Range(rs) : r.id = id).fold
InFoldOrder(rs, gs, c) == \A i \in DOMAIN gs : \A j, k \in DOMAIN gs[i].cols[c] :
                             (j < k /\ {gs[i].cols[c][j], gs[i].cols[c][k]} \subseteq {r.id : r \in Range(rs)})
                                 => FoldOf(rs, gs[i].cols[c][j]) <= FoldOf(rs, gs[i].cols[c][k])

Complete == todo = {} /\ \A x \in Labels : groups[x] # {} => \A c \in Columns : columns[x][c] # <<>>
RawRows == [i \in DOMAIN rows |-> [id |-> i, label |-> rows[i].label, fold |-> rows[i].fold]]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<[label |-> x, cols |-> columns[x]]>> \o ToSeq(S \ {x})
Result == ToSeq({x \in Labels : groups[x] # {}})
NothingLost == Complete => \A c \in Columns : EveryRowOnce(RawRows, Result, c) /\ OnlyOwnRows(RawRows, Result, c) /\ InFoldOrder(RawRows, Result, c)
ColumnsAligned == Complete => Aligned(Result) /\ OneGroupPerLabel(Result)
=============================================================================
