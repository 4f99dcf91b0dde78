------------------------------- MODULE CacheGen -------------------------------
(* Generates the operation sequences replayed on the real code: exhaustively *)
(* up to a length, and by simulation for long ones.  x selects one of two    *)
(* contexts, os and cls the set of oversamplers and classifiers, crash the   *)
(* kind of the step the process dies at (no: it runs to its end).            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS L, Full
VARIABLE h
Crashes == {"no", "compute", "write", "flush", "before rename", "after rename", "remove"}
Few == {"no", "write", "before rename"}
Runs == [op : {"run"}, x : {1, 2}, os : {"one", "all"}, cls : IF Full THEN {"one", "all"} ELSE {"all"}, clean : {"none", "oversamplings", "all"}, crash : IF Full THEN Crashes ELSE Few]
Jobs == [op : {"job"}, x : {1, 2}, reset : {"none", "s", "e", "both"}, source : {"dict", "file"}, crash : IF Full THEN Crashes \ {"remove"} ELSE Few]
(* salt: weight of the operation in simulations *)
Damages == [op : {"damage"}, salt : IF Full THEN 1..8 ELSE {1}, kind : {"s", "e", "f"}, how : {"truncate", "empty", "garbage", "delete"}]
Cleans == [op : {"clean"}, salt : IF Full THEN 1..3 ELSE {1}, x : {1, 2}, what : {"oversamplings", "all", "none"}]
Folds == [op : {"folds"}, salt : IF Full THEN 1..6 ELSE {1}, x : {1, 2}]
Wipes == [op : {"wipe"}, salt : IF Full THEN 1..2 ELSE {1}, x : {1, 2}]
Ops == Runs \cup Jobs \cup Damages \cup Cleans \cup Folds \cup Wipes
Init == h = <<>>
Next == \/ /\ Len(h) < L /\ \E o \in Ops : h' = Append(h, o)
        \/ /\ Len(h) = L /\ PrintT(<<"CASE", ToJson([ops |-> h])>>) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
