------------------------------ MODULE ParamsTrace ------------------------------
(* Validates recorded parameter reports of the real classes (C06).           *)
EXTENDS TraceBase
VARIABLE l
P == INSTANCE Params WITH Args <- {}, Values <- {}, Default <- 0, given <- <<>>, cur <- <<>>, gen <- 0, calls <- 0

Build(e) ==
    IF e.err # "" THEN {"constructor rejects a valid combination"}
    ELSE    Broken("all constructor arguments are reported with their values", P!Reports(e.expected, e.reported))
       \cup Broken("every argument is reported", \A i \in DOMAIN e.args : e.args[i] \in {e.repnames[j] : j \in DOMAIN e.repnames})
       \cup Broken("rebuilding is possible", e.rerr = "")
       \cup (IF e.rerr # "" THEN {} ELSE
               Broken("rebuilt object reports the same", P!SameReport(e.reported, e.rebuilt))
          \cup Broken("object rebuilt through JSON reports the same", e.json = "" => P!SameReport(e.reported, e.rejson))
          \cup Broken("JSON round trip", e.json = "")
          \cup Broken("object built by class name reports the same", P!SameReport(e.reported, e.byname))
          \cup Broken("rebuilt object behaves the same", e.dig # "" => (e.dig = e.dig2 /\ e.dig = e.dig4))
          \cup Broken("object rebuilt through JSON behaves the same", e.dig # "" => e.dig = e.dig3))
       \cup Broken("sampling does not change the parameters", P!SameReport(e.reported, e.after))

Grid(e) ==
    (* SMOTE_PSOBAT offers the union of the grids of its two methods *)
    LET Sz(ks) == P!Product([i \in DOMAIN ks |-> P!Value(e.szs, ks[i])]) IN
    Broken("full product of the grid",
           IF e.cls = "SMOTE_PSOBAT"
           THEN e.n = Sz(<<"maxit", "alpha", "gamma">>) + Sz(<<"maxit", "c1", "c2", "c3">>)
           ELSE e.n = P!Product(e.sizes) /\ Len(e.keysets) = 1)
    \cup Broken("combinations are distinct", e.distinct = e.n)
    \cup Broken("combinations are over the grid", e.ingrid)

Verdict(e) == CASE e.op = "build" -> Build(e) [] e.op = "grid" -> Grid(e) [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
