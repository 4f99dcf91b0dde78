----------------------------- MODULE SimplexTrace -----------------------------
EXTENDS TraceBase
VARIABLE l
S == INSTANCE Simplex

Strip(sx) == [k \in DOMAIN sx |-> sx[k].s]
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : S!Times(a, a[i]) = S!Times(b, a[i])
Enumerate(e) == Broken("exactly the simplices of a base and order minus one of its listed neighbours", SameBag(e.got, Strip(S!Simplices(e.ind, e.dim))))
(* weights of the simplices; zero length edges have none under volume weighting *)
W(e, sx) == LET w0 == S!Weights(sx, e.bw, e.sw) IN
    IF e.ss = "volume" /\ e.bw = <<>>
    THEN [k \in DOMAIN sx |-> IF Len(sx[k].s) = 2 /\ e.X[sx[k].s[1]] = e.V[sx[k].s[2]] THEN 0 ELSE w0[k]]
    ELSE w0
Select(e) ==
    LET sx == S!Simplices(e.ind, e.dim)
        w == W(e, sx)
    IN      Broken("exactly the requested number of simplices", Len(e.sel) = e.n)
       \cup Broken("only simplices of positive weight", S!SelectionOK(e.sel, Len(e.sel), sx, w))
       \cup Broken("deterministic selection gives the floor or the ceiling of the share",
                   (e.ss = "deterministic" /\ Len(e.sel) = e.n) => S!DetSelectionOK(e.sel, e.n, sx, w))
Pooled(e) == e.same /\ e.vw = <<>>
Sample(e) ==
    LET sx == S!Simplices(e.ind, e.dim)
        w == W(e, sx)
        hulls == {S!Corners(e.X, e.V, e.vw, sx[k].s) : k \in {k \in DOMAIN sx : w[k] > 0}}
        chosen == {S!Corners(e.X, e.V, e.vw, e.sel[i]) : i \in DOMAIN e.sel}
    IN      Broken("exactly the requested number of points", Len(e.pts) = e.n /\ e.width = Len(e.X[1]))
       \cup (IF e.gauss THEN {}
             ELSE Broken("every point inside an admissible simplex", \A i \in DOMAIN e.pts : \E h \in hulls : S!InHull(e.pts[i], h)))
       \cup (IF e.within # "random" \/ e.gauss \/ Len(e.pts) # e.n THEN {}
             ELSE Broken("one point per selected simplex", \A h \in chosen : \E i \in DOMAIN e.pts : S!InHull(e.pts[i], h)))
       \cup (IF e.within # "deterministic" \/ e.gauss \/ Len(e.pts) # e.n \/ e.n = 0 THEN {}
             ELSE IF S!Order(e.dim, e.ind) = 2
                  THEN Broken("evenly spaced points", S!SameBag(S!DetPoints(e.X, e.V, e.vw, e.sel, Pooled(e)), e.pts))
                  ELSE Broken("points of order one", S!SameBag([i \in DOMAIN e.sel |-> e.X[e.sel[i][1]]], e.pts)))
       \cup Broken("inputs unchanged", e.pure)
Verdict(e) ==
    IF e.err # "" THEN {"raises"}
    ELSE CASE e.op = "enumerate" -> Enumerate(e)
           [] e.op = "select" -> Select(e)
           [] e.op = "sample" -> Sample(e)
           [] e.op = "alloc" -> Broken("deterministic sample takes the floor or the ceiling of each share", S!ShareOK(e.counts, e.n, e.w))
           [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
