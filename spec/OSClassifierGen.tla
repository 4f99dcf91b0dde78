---------------------------- MODULE OSClassifierGen ----------------------------
(* all life cycles of up to 4 operations, each followed by predictions       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT MaxLen
VARIABLE seq
A(op, o, c, d) == [op |-> op, o |-> o, c |-> c, d |-> d]
Actions == {A("fit", "", "", "d1"), A("fit", "", "", "d2"), A("set oversampler", "o2", "", ""), A("set oversampler", "o1", "", ""), A("set classifier", "", "c2", ""),
            A("set both", "o2", "c2", ""), A("clone", "", "", "")}
Init == seq = <<>>
Next == /\ Len(seq) < MaxLen
        /\ \E a \in Actions : seq' = Append(seq, a) /\ PrintT(<<"CASE", ToJson(seq')>>)
Spec == Init /\ [][Next]_seq
Useful == \E i \in DOMAIN seq : seq[i].op = "fit"
=============================================================================
