-------------------------------- MODULE Params --------------------------------
(* Parameters of samplers (C06): constructor arguments, their report, and    *)
(* rebuilding an object from the report (directly, through a text format,    *)
(* by class name).                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Args, Values, Default
VARIABLES given,    \* the arguments passed: function from a subset of Args
          cur,      \* the current values of the object
          gen,      \* how many times rebuilt
          calls     \* sampling calls made on the object
vars == <<given, cur, gen, calls>>

Complete(g) == [a \in Args |-> IF a \in DOMAIN g THEN g[a] ELSE Default]
Partial == UNION {[D -> Values] : D \in SUBSET Args}

Init == given \in Partial /\ cur = Complete(given) /\ gen = 0 /\ calls = 0
GetParams == cur
Sample == calls < 2 /\ calls' = calls + 1 /\ UNCHANGED <<given, cur, gen>>
Rebuild == gen < 2 /\ gen' = gen + 1 /\ cur' = Complete(GetParams) /\ calls' = 0 /\ UNCHANGED given
Next == Sample \/ Rebuild
Spec == Init /\ [][Next]_vars

ReportsGiven == \A a \in DOMAIN given : GetParams[a] = given[a]
ReportsAll == DOMAIN GetParams = Args
RoundTrip == GetParams = Complete(given)

(* ---- judgements on recorded reports: sequences of <<name, value>> ---- *)
Names(r) == {r[i][1] : i \in DOMAIN r}
Value(r, n) == r[CHOOSE i \in DOMAIN r : r[i][1] = n][2]
(* all constructor arguments are reported, with the expected values *)
Reports(expected, reported) ==
    \A i \in DOMAIN expected : expected[i][1] \in Names(reported) /\ Value(reported, expected[i][1]) = expected[i][2]
SameReport(a, b) == Reports(a, b) /\ Reports(b, a)

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
=============================================================================
