------------------------------- MODULE Simplex -------------------------------
(* The simplex sampling core (C19): enumeration of the simplices, their      *)
(* weights, the selection of a quota of them, and the points taken in them.  *)
(* Base vectors and vertices are numbered from 1; ind[b] is the sequence of  *)
(* the listed vertices of base b, of which the first is b's own entry.       *)
(* Coordinates are integers (thousandths), weights are integers (quarters).  *)
EXTENDS SVBase

(* increasing column tuples *)
RECURSIVE Combos(_, _, _)
Combos(lo, hi, k) ==
    IF k = 0 THEN <<<<>>>>
    ELSE IF lo > hi THEN <<>>
    ELSE LET withlo == Combos(lo + 1, hi, k - 1)
         IN [i \in DOMAIN withlo |-> <<lo>> \o withlo[i]] \o Combos(lo + 1, hi, k)
Order(dim, ind) == Min(dim, Len(ind[1]))
(* all simplices as records [s |-> <<base, v1, ...>>, cols |-> columns used] *)
Simplices(ind, dim) ==
    LET cs == Combos(2, Len(ind[1]), Order(dim, ind) - 1)
    IN [k \in 1..(Len(ind) * Len(cs)) |->
            LET b == ((k - 1) \div Len(cs)) + 1
                c == cs[((k - 1) % Len(cs)) + 1]
            IN [s |-> <<b>> \o [j \in DOMAIN c |-> ind[b][c[j]]], cols |-> c]]
Binomial(n, k) == Len(Combos(1, n, k))

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
(* bw: weights of the bases (<<>>: all one); sw: weights of the listed vertices per base (<<>>: all one) *)
Weight(x, bw, sw) ==
    (IF bw = <<>> THEN 1 ELSE bw[x.s[1]]) * (IF sw = <<>> THEN 1 ELSE Prod([j \in DOMAIN x.cols |-> sw[x.s[1]][x.cols[j]]]))
Weights(sx, bw, sw) == [k \in DOMAIN sx |-> Weight(sx[k], bw, sw)]

(* ---- deterministic selection: every item gets the floor or the ceiling of its share n * w / W *)
Floor(a, b) == a \div b
Ceil(a, b) == (a + b - 1) \div b
ShareOK(counts, n, w) == LET W == SumSeq(w) IN
    /\ SumSeq(counts) = n
    /\ \A i \in DOMAIN w : counts[i] >= Floor(n * w[i], W) /\ counts[i] <= Ceil(n * w[i], W)
(* the algorithm: ceilings, reduced at evenly spread fractional items *)
Fractional(n, w) == LET W == SumSeq(w) IN SelectSeq(Identity(Len(w)), LAMBDA i : (n * w[i]) % W # 0)
Allocate(n, w) ==
    LET W == SumSeq(w)
        up == [i \in DOMAIN w |-> Ceil(n * w[i], W)]
        r == SumSeq(up) - n
        fr == Fractional(n, w)
        removed == IF r = 0 THEN {} ELSE {fr[((k * Len(fr)) \div r) + 1] : k \in 0..(r - 1)}
    IN [i \in DOMAIN w |-> IF i \in removed THEN up[i] - 1 ELSE up[i]]

(* ---- selections recorded: sel is a sequence of vertex tuples *)
Times(sel, s) == Cardinality({i \in DOMAIN sel : sel[i] = s})
SelectionOK(sel, n, sx, w) ==
    /\ Len(sel) = n
    /\ \A i \in DOMAIN sel : \E k \in DOMAIN sx : sx[k].s = sel[i] /\ w[k] > 0
DetSelectionOK(sel, n, sx, w) ==
    LET W == SumSeq(w) IN
    \A s \in {sx[k].s : k \in DOMAIN sx} :
        LET same == SelectSeq(Identity(Len(sx)), LAMBDA k : sx[k].s = s)
            lo == SumSeq([j \in DOMAIN same |-> Floor(n * w[same[j]], W)])
            hi == SumSeq([j \in DOMAIN same |-> Ceil(n * w[same[j]], W)])
        IN Times(sel, s) >= lo /\ Times(sel, s) <= hi

(* ---- points; X: base points, V: vertices, vw: vertex weights in quarters (<<>>: full) *)
Corner(X, V, vw, s, j) ==
    IF j = 1 THEN X[s[1]]
    ELSE IF vw = <<>> THEN V[s[j]]
    ELSE [c \in DOMAIN X[s[1]] |-> X[s[1]][c] + ((V[s[j]][c] - X[s[1]][c]) * vw[s[j]]) \div 4]
Corners(X, V, vw, s) == [j \in DOMAIN s |-> Corner(X, V, vw, s, j)]
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Dot(a, b, c) == (b[1] - a[1]) * (c[1] - a[1]) + (b[2] - a[2]) * (c[2] - a[2])
Near2(a, b, t) == Abs(a[1] - b[1]) <= t /\ Abs(a[2] - b[2]) <= t
Long(a, b) == Max(Abs(a[1] - b[1]), Abs(a[2] - b[2]))
Tol == 2
OnSegment(p, a, b) ==
    \/ Near2(p, a, Tol) \/ Near2(p, b, Tol)
    \/ /\ Abs(Cross(a, b, p)) <= 2 * Tol * Long(a, b)
       /\ Dot(a, b, p) >= 0 /\ Dot(b, a, p) >= 0
InTriangle(p, a, b, c) ==
    \/ OnSegment(p, a, b) \/ OnSegment(p, b, c) \/ OnSegment(p, a, c)
    \/ /\ Cross(a, b, p) >= 0 /\ Cross(b, c, p) >= 0 /\ Cross(c, a, p) >= 0 /\ Cross(a, b, c) > 0
    \/ /\ Cross(a, b, p) <= 0 /\ Cross(b, c, p) <= 0 /\ Cross(c, a, p) <= 0 /\ Cross(a, b, c) < 0
InHull(p, cs) ==
    CASE Len(cs) = 1 -> Near2(p, cs[1], Tol)
      [] Len(cs) = 2 -> OnSegment(p, cs[1], cs[2])
      [] OTHER -> \E i, j, k \in DOMAIN cs : i < j /\ j < k /\ InTriangle(p, cs[i], cs[j], cs[k])

(* k points of an edge, evenly spaced: the fractions 1/(k+1), ..., k/(k+1) *)
EdgePoints(a, b, k) == [j \in 1..k |-> [c \in DOMAIN a |-> a[c] + ((b[c] - a[c]) * j) \div (k + 1)]]
(* edges without direction are pooled when bases and vertices are the same points and unweighted *)
Edge(s, pooled) == IF pooled THEN <<Min(s[1], s[2]), Max(s[1], s[2])>> ELSE s
DetPoints(X, V, vw, sel, pooled) ==
    LET es == [i \in DOMAIN sel |-> Edge(sel[i], pooled)]
        pts(e) == EdgePoints(X[e[1]], Corner(X, V, vw, e, 2), Times(es, e))
    IN [i \in DOMAIN sel |-> LET e == es[i]
                                 before == Cardinality({j \in 1..i : es[j] = e})
                             IN pts(e)[before]]
(* the recorded points are the expected ones up to order and rounding: greedy matching is exact enough as the
   tolerance is far below the spacing of distinct points *)
SameBag(ps, qs) ==
    /\ Len(ps) = Len(qs)
    /\ \A i \in DOMAIN ps :
        LET near(x, s) == Cardinality({j \in DOMAIN s : Near2(s[j], x, 2)}) IN near(ps[i], qs) = near(ps[i], ps)
    /\ \A i \in DOMAIN qs : \E j \in DOMAIN ps : Near2(ps[j], qs[i], 2)
=============================================================================
