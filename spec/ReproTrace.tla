------------------------------ MODULE ReproTrace ------------------------------
(* Validates recorded histories of the real samplers against Repro.tla: the  *)
(* trace specification tracks the history of each object and remembers the   *)
(* digest of the result of every history of the configuration.               *)
EXTENDS TraceBase
VARIABLES l, grp, hist, memo
vars == <<l, grp, hist, memo>>

Init == l = 1 /\ grp = "" /\ hist = <<>> /\ memo = <<>>

(* memo: function from <<stream kind, history>> to digest *)
Key(e, h) == <<e.rk, h>>
H(o) == IF o \in DOMAIN hist THEN hist[o] ELSE <<>>

Step(e) ==
    CASE e.op = "begin" ->      \* a new configuration (class, parameters, seed, data)
           /\ grp' = e.grp /\ hist' = <<>> /\ memo' = <<>>
           /\ Report(l, {})
      [] e.op = "construct" ->
           /\ hist' = ((e.o :> <<>>) @@ hist) /\ UNCHANGED <<grp, memo>>
           /\ Report(l, {})
      [] e.op = "rewind" ->
           /\ hist' = ((e.o :> <<>>) @@ hist) /\ UNCHANGED <<grp, memo>>
           /\ Report(l, {})
      [] e.op = "sample" ->
           LET h == Append(H(e.o), e.d)
               k == Key(e, h)
               known == k \in DOMAIN memo
           IN /\ hist' = ((e.o :> h) @@ hist)
              /\ memo' = IF known THEN memo ELSE ((k :> e.dig) @@ memo)
              /\ UNCHANGED grp
              /\ Report(l, Broken("same history, same result", known => memo[k] = e.dig)
                      \cup Broken("the passed random state is consumed", e.rk = "rs" /\ e.random => e.moved))
      [] e.op \in {"perturb", "other"} ->
           UNCHANGED <<grp, hist, memo>> /\ Report(l, {})
      [] OTHER -> UNCHANGED <<grp, hist, memo>> /\ Report(l, {"unknown event"})

Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
