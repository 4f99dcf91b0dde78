---------------------------- MODULE NoiseFilterMC ----------------------------
(* Exhaustive: all labelings of small point configurations.  Checks the      *)
(* meaning of the rules and prints every case for the replay in the code.    *)
EXTENDS NoiseFilter, Json, IOUtils
CONSTANTS Emit
VARIABLES c, y, done
Cfgs == JsonDeserialize(IOEnv.CONFIGS)      \* sequence of point sequences
Mats == TLCEval([k \in DOMAIN Cfgs |-> DistMatrix("euclidean", Cfgs[k])])
D == Mats[c]
rows == Identity(Len(y))

Init == /\ c \in DOMAIN Cfgs
        /\ y \in {z \in [1..Len(Cfgs[c]) -> {0, 1}] : TwoClasses(z)}
        /\ done = FALSE
Case(name, opt) == [name |-> name, opt |-> opt, keep |-> IF Defined(name, D, y) THEN FilterOf(name, opt, D, y) ELSE <<0>>]
Cases == << Case("TomekLinkRemoval", "remove_majority"), Case("TomekLinkRemoval", "remove_both"),
            Case("EditedNearestNeighbors", "both"), Case("EditedNearestNeighbors", "min"), Case("EditedNearestNeighbors", "maj"),
            Case("NeighborhoodCleaningRule", "-"), Case("CondensedNearestNeighbors", "-"), Case("OneSidedSelection", "-"),
            Case("CNNTomekLinks", "-") >>
Next == /\ ~done
        /\ done' = TRUE
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([c |-> c, y |-> y, cases |-> Cases])>>) ELSE TRUE
        /\ UNCHANGED <<c, y>>
Spec == Init /\ [][Next]_<<c, y, done>>

(* ---- meaning ---- *)
Generic == GenericPosition(D, Range(rows))
Mn == MinLabel(y)
Mj == MajLabel(y)
SubCollection == \A i \in DOMAIN Cases : Cases[i].keep = <<0>> \/
    (Range(Cases[i].keep) \subseteq Range(rows) /\ Cardinality(Range(Cases[i].keep)) = Len(Cases[i].keep))
(* every majority row is classified correctly by the condensed set, which contains the whole minority *)
CNNConsistent ==
    LET S == Range(CNN(D, y, rows))
    IN  /\ \A r \in Range(rows) : y[r] = Mn => r \in S
        /\ \A r \in Range(rows) : (y[r] = Mj /\ r \notin S) => y[Nearest(D, r, S)] = Mj
(* a Tomek link is symmetric and its majority end is the only loss of 'remove_majority' *)
TomekLaw ==
    LET L == TomekLinks(D, y, Range(rows))
        k == Range(Tomek(D, y, rows, "remove_majority"))
        b == Range(Tomek(D, y, rows, "remove_both"))
    IN  /\ \A lk \in L : <<lk[2], lk[1]>> \in L
        /\ \A r \in Range(rows) : y[r] = Mn => r \in k
        /\ b \subseteq k
        /\ Cardinality(Range(rows)) - Cardinality(b) = Cardinality(L)
ENNLaw ==
    LET bo == Range(ENN(D, y, rows, "both"))
        mi == Range(ENN(D, y, rows, "min"))
        ma == Range(ENN(D, y, rows, "maj"))
    IN  bo = mi \cap ma
NCRLaw == LET k == Range(NCR(D, y, rows))
          IN  /\ \A r \in Range(rows) : y[r] = Mn => r \in k
              /\ k \subseteq Range(ENN(D, y, rows, "maj"))
=============================================================================
