----------------------------- MODULE Placement -----------------------------
(* Where the rule based oversamplers may put a synthetic sample.             *)
(*                                                                           *)
(* A dataset is given by N rows, the predicate mn (minority) and the ranks R *)
(* of the pairwise distances (all distinct).  A placement c is a base row    *)
(* c.b, a sequence c.s of further rows and the range <<c.lo, c.hi>> of the   *)
(* position between base and these (in 1/10000; over all features for the    *)
(* samplers drawing each feature separately).  Allowed(e, c) is the rule of  *)
(* the sampler e.cls with neighbourhood size e.k: a sample is legal iff one  *)
(* of the placements it geometrically has is allowed.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rows(e) == 1..Len(e.mn)
Min(e) == {i \in Rows(e) : e.mn[i]}
Maj(e) == {i \in Rows(e) : ~e.mn[i]}
Smaller(a, b) == IF a < b THEN a ELSE b

(* the k rows of S (but i) closest to i *)
Near(e, i, S, k) == LET T == S \ {i} IN {j \in T : Cardinality({l \in T : e.R[i][l] < e.R[i][j]}) < k}

(* neighbourhood sizes are cut to what is available *)
Cnt(S, P(_)) == Cardinality({j \in S : P(j)})

---------------------------------------------------------------------------
(* Borderline-SMOTE: noise has majority neighbours only, danger has mostly   *)
MajAround(e, i, k) == Cnt(Near(e, i, Rows(e), k), LAMBDA j : ~e.mn[j])
Width(e, k) == Smaller(Len(e.mn) - 1, k)
Noise(e) == {i \in Min(e) : MajAround(e, i, e.m) = Width(e, e.m)}
Danger(e) == {i \in Min(e) \ Noise(e) : 2 * MajAround(e, i, e.m) >= Width(e, e.m)}
SurelyDanger(e) == {i \in Min(e) \ Noise(e) : 2 * MajAround(e, i, e.m) > Width(e, e.m)}

(* ADASYN: bases have majority neighbours *)
Hard(e) == {i \in Min(e) : MajAround(e, i, Smaller(e.k, Cardinality(Min(e)) - 1)) > 0}

(* MSMOTE: security samples have minority neighbours only, the others use the nearest one *)
Noisy(e) == {i \in Min(e) : MajAround(e, i, e.k) = Width(e, e.k)}
Secure(e) == {i \in Min(e) : MajAround(e, i, e.k) = 0}

---------------------------------------------------------------------------
(* Safe-level SMOTE: the gap depends on the ratio of the safe levels *)
SafeLevel(e, i) == Cnt(Near(e, i, Rows(e), e.k), LAMBDA j : e.mn[j])
Gap(a, b, c) ==
    CASE a = 0 /\ b = 0 -> FALSE
      [] a > 0 /\ b = 0 -> c.hi <= 1
      [] a = b -> TRUE
      [] a > b /\ b > 0 -> c.hi * a <= b * 10000 + a
      [] a < b -> (10000 - c.lo) * b <= a * 10000 + b

(* LN-SMOTE: the safe level of a majority neighbour does not count the base; *)
(* positions next to a majority row are drawn closer to the base             *)
LNk(e) == Smaller(Len(e.mn) - 2, e.k)
LNLevel(e, i) == Cnt(Near(e, i, Rows(e), LNk(e)), LAMBDA j : e.mn[j])
LNOther(e, p, n) ==
    IF ~e.mn[n] /\ p \in Near(e, n, Rows(e), LNk(e))
    THEN Cnt(Near(e, n, Rows(e), LNk(e) + 1) \ {p}, LAMBDA j : e.mn[j])
    ELSE LNLevel(e, n)
LNGap(e, p, n, c) ==
    LET a == LNLevel(e, p)  b == LNOther(e, p, n)  k == LNk(e) IN
    /\ a > 0 /\ b > 0
    /\ IF e.mn[n] THEN Gap(a, b, c)
       ELSE CASE a >= b -> c.hi * k * (IF a = b THEN 1 ELSE a) <= b * (IF a = b THEN 1 ELSE b) * 10000 + k * a
              [] OTHER -> /\ c.hi * k <= b * 10000 + k
                          /\ c.lo * k + k >= (b - a) * 10000

---------------------------------------------------------------------------
(* ANS: bases with few majority rows within the distance of the nearest minority row *)
FirstPos(e, i) == LET j == CHOOSE j \in Near(e, i, Min(e), 1) : TRUE IN e.R[i][j]
OutBorder(e, i) == Cnt(Maj(e), LAMBDA j : e.R[i][j] < FirstPos(e, i))
RECURSIVE ANSLoop(_, _, _, _, _)
ANSLoop(e, c, prev, best, C) ==
    IF c >= Len(e.mn) \div 4 THEN C
    ELSE LET n == Cnt(Min(e), LAMBDA i : OutBorder(e, i) >= c)
             diff == IF n > prev THEN n - prev ELSE prev - n
         IN IF best = -1 \/ diff < best THEN ANSLoop(e, c + 1, n, diff, n) ELSE ANSLoop(e, c + 1, n, best, C)
ANSUsed(e) == LET C == ANSLoop(e, 1, -1, -1, 0) IN {i \in Min(e) : OutBorder(e, i) < C}
Max(S) == CHOOSE x \in S : \A z \in S : z <= x

(* MWMOTE: bases among the informative minority *)
Informative(e) ==
    LET kept == {i \in Min(e) : Cnt(Near(e, i, Rows(e), e.k1), LAMBDA j : e.mn[j]) > 0}
        border == UNION {Near(e, i, Maj(e), e.k2 + 1) : i \in kept}
    IN UNION {Near(e, b, Min(e), e.k3) : b \in border}

(* ProWSyn: proximity levels *)
RECURSIVE Levels(_, _, _)
Levels(e, P, l) ==
    IF P = {} THEN <<>>
    ELSE IF l = 0 THEN <<P>>
    ELSE LET S == UNION {Near(e, i, P, e.k) : i \in Maj(e)} IN <<S>> \o Levels(e, P \ S, l - 1)

(* connected components of the minority under distances of rank at most e.thr (single linkage) *)
RECURSIVE Reach(_, _)
Reach(e, S) ==
    LET T == S \cup {j \in Min(e) : \E i \in S : i = j \/ e.R[i][j] <= e.thr} IN IF T = S THEN S ELSE Reach(e, T)

(* Assembled-SMOTE: border samples have majority neighbours *)
Border(e) == {i \in Min(e) : MajAround(e, i, e.k) > 0}

(* NRSBoundary: minority samples with a majority row within their own radius *)
Bound(e) == {i \in Min(e) : \E j \in Maj(e) : e.R[i][j] <= e.radius[i]}

(* Edge detection: the labels to the left and right differ along some feature *)
Edges(e) ==
    {i \in Min(e) : \E f \in DOMAIN e.ord : \E p \in 2..(Len(e.mn) - 1) :
        e.ord[f][p] = i /\ e.mn[e.ord[f][p - 1]] # e.mn[e.ord[f][p + 1]]}

(* A-SUWO: rows without a neighbour of their class are noise; the remaining minority is clustered bottom-up:   *)
(* the two closest clusters are merged unless a majority cluster lies closer to both; then the pair is barred  *)
(* (until a merger brings them together again); nothing is merged beyond the threshold                         *)
SameAround(e, i, k) == Cnt(Near(e, i, Rows(e), k), LAMBDA j : e.mn[j] = e.mn[i])
SuwoNoise(e) == {i \in Rows(e) : SameAround(e, i, e.k) = 0}
SuwoFar == 1000000
SuwoBetween(e, A, B, pi) ==
    \E q \in {e.clu[m] : m \in Maj(e) \ SuwoNoise(e)} :
        \A C \in {A, B} : \E m \in Maj(e) \ SuwoNoise(e) : e.clu[m] = q /\ \E i \in C : e.R[i][m] < pi
RECURSIVE SuwoMerge(_, _, _)
SuwoMerge(e, cl, d) ==
    LET names == DOMAIN cl
        pairs == {<<a, b>> \in names \X names : a < b}
    IN IF pairs = {} THEN {cl[a] : a \in names}
       ELSE LET p == CHOOSE x \in pairs : \A z \in pairs : d[x[1]][x[2]] <= d[z[1]][z[2]]
                a == p[1]  b == p[2]  pi == d[a][b]
            IN IF pi > e.thr THEN {cl[x] : x \in names}
               ELSE IF SuwoBetween(e, cl[a], cl[b], pi)
               THEN SuwoMerge(e, cl, TLCEval([d EXCEPT ![a][b] = SuwoFar, ![b][a] = SuwoFar]))
               ELSE LET rest == names \ {b} IN
                    SuwoMerge(e, TLCEval([x \in rest |-> IF x = a THEN cl[a] \cup cl[b] ELSE cl[x]]),
                              TLCEval([x \in rest |-> [z \in rest |-> IF x = a THEN Smaller(d[a][z], d[b][z]) ELSE IF z = a THEN Smaller(d[x][a], d[x][b]) ELSE d[x][z]]]))
SuwoClusters(e) ==
    LET M == Min(e) \ SuwoNoise(e) IN SuwoMerge(e, TLCEval([i \in M |-> {i}]), TLCEval([i \in M |-> [j \in M |-> e.R[i][j]]]))

(* TRIM: regions are split while a part is purer than the whole, at class borders first; the rows of the      *)
(* remaining regions of sufficient precision are used                                                        *)
TrimSplits(e, S, border) ==
    UNION {LET q == SelectSeq(e.ord[f], LAMBDA i : i \in S) IN
           {[f |-> f, p |-> p, left |-> {q[x] : x \in 1..p}] : p \in {x \in 1..(Len(q) - 1) : border => e.mn[q[x]] # e.mn[q[x + 1]]}}
           : f \in DOMAIN e.ord}
TrimVal(e, S) == <<Cardinality(S \cap Min(e)) * Cardinality(S \cap Min(e)), Cardinality(S)>>
Above(a, b) == a[1] * b[2] > b[1] * a[2]
TrimGain(e, S, x) == LET a == TrimVal(e, x.left)  b == TrimVal(e, S \ x.left) IN IF Above(b, a) THEN b ELSE a
TrimParts(e, S, border) ==   \* the parts, {} if nothing is gained
    LET sp == TLCEval({[f |-> x.f, p |-> x.p, left |-> x.left, g |-> TrimGain(e, S, x)] : x \in TrimSplits(e, S, border)})
        best == {x \in sp : \A z \in sp : ~Above(z.g, x.g)}
        first == CHOOSE x \in best : \A z \in best : x.f < z.f \/ (x.f = z.f /\ x.p <= z.p)
    IN IF sp = {} \/ ~Above(first.g, TrimVal(e, S)) THEN {} ELSE {first.left, S \ first.left}
RECURSIVE TrimRegions(_, _, _)
TrimRegions(e, S, border) ==
    IF Cardinality(S) <= 1 THEN {}
    ELSE LET P == TrimParts(e, S, border) IN
         IF P = {} THEN (IF border THEN TrimRegions(e, S, FALSE) ELSE {S})
         ELSE UNION {TrimRegions(e, A, TRUE) : A \in {B \in P : B \cap Min(e) # {}}}
Precise(e, S, th) == Cardinality(S \cap Min(e)) * 1000000 > th * Cardinality(S)
RECURSIVE TrimUsed(_, _, _)
TrimUsed(e, seeds, l) ==
    LET ok == {S \in seeds : Precise(e, S, e.th[l])} IN
    IF ok # {} THEN Min(e) \cap UNION ok ELSE TrimUsed(e, seeds, l + 1)
TrimRows(e) ==
    LET seeds == TrimRegions(e, Rows(e), TRUE) IN
    IF \A S \in seeds : ~Precise(e, S, e.th[1] \div 10) THEN {} ELSE TrimUsed(e, seeds, 1)

(* SOI-CJ: the neighbourhoods of the minority rows up to the first majority row; overlapping ones are merged *)
(* if the ball spanned by their farthest members is mostly minority, otherwise the smaller one gives way     *)
SoiStart(e, i) == {i} \cup {j \in Min(e) : i # j /\ \A m \in Maj(e) : e.R[i][j] < e.R[i][m]}
RECURSIVE SoiPass(_, _, _, _, _)
SoiPass(e, C, i, j, hit) ==
    IF i > Len(C) THEN (LET D == SelectSeq(C, LAMBDA S : S # {}) IN IF hit THEN SoiPass(e, D, 1, 2, FALSE) ELSE D)
    ELSE IF j > Len(C) THEN SoiPass(e, C, i + 1, i + 2, hit)
    ELSE IF C[i] \cap C[j] = {} THEN SoiPass(e, C, i, j + 1, hit)
    ELSE LET far == CHOOSE p \in C[i] \X C[j] : \A z \in C[i] \X C[j] : e.R[z[1]][z[2]] <= e.R[p[1]][p[2]]
             common == C[i] \cap C[j]
         IN SoiPass(e, TLCEval(IF e.ball[far[1]][far[2]] THEN [C EXCEPT ![i] = C[i] \cup C[j], ![j] = {}]
                               ELSE IF Cardinality(C[i]) > Cardinality(C[j]) THEN [C EXCEPT ![j] = C[j] \ common]
                               ELSE [C EXCEPT ![i] = C[i] \ common]), i, j + 1, TRUE)
MinSeq(e) == SelectSeq([i \in Rows(e) |-> i], LAMBDA i : e.mn[i])
SoiClusters(e) ==
    LET q == MinSeq(e)
        C == SoiPass(e, TLCEval([x \in DOMAIN q |-> SoiStart(e, q[x])]), 1, 2, FALSE)
    IN {C[x] : x \in {y \in DOMAIN C : Cardinality(C[y]) > 2}}

(* DBSMOTE: along the edges of the shortest paths to the row closest to the centre of its density cluster; *)
(* rows without a path are copied                                                                          *)
DbLabels(e) ==
    LET good == {x \in DOMAIN e.dbs : \E i \in Rows(e) : e.dbs[x][i] > 0} IN
    IF good = {} THEN [i \in Rows(e) |-> 0] ELSE e.dbs[CHOOSE x \in good : \A z \in good : x <= z]
DbEdge(e, C, u, v) == v \in Near(e, u, C, e.k) /\ e.R[u][v] <= e.thr
Infinite == 1000000000
RECURSIVE DbDist(_, _, _, _)
DbDist(e, C, d, l) ==
    IF l = 0 THEN d
    ELSE DbDist(e, C, TLCEval([v \in C |->
            LET from == {d[u] + e.W[u][v] : u \in {x \in C : d[x] < Infinite /\ DbEdge(e, C, x, v)}} \cup {d[v]}
            IN CHOOSE x \in from : \A z \in from : x <= z]), l - 1)
DbTree(e, C, src) ==   \* edges to the parents and rows without one
    LET d == DbDist(e, C, TLCEval([v \in C |-> IF v = src THEN 0 ELSE Infinite]), Cardinality(C))
    IN [edges |-> {<<v, u>> \in C \X C : v # src /\ d[v] < Infinite /\ d[u] < Infinite /\ DbEdge(e, C, u, v)
                                          /\ d[u] + e.W[u][v] <= d[v] + 2 * Cardinality(C)},
        roots |-> {src} \cup {v \in C : d[v] = Infinite}]

(* AND-SMOTE: as many neighbours as the sharpest drop of the precision of the covered boxes suggests *)
Within(e, x, i, j) ==
    \A f \in DOMAIN e.ord :
        LET pos(z) == CHOOSE p \in DOMAIN e.ord[f] : e.ord[f][p] = z IN
        (pos(i) <= pos(x) /\ pos(x) <= pos(j)) \/ (pos(j) <= pos(x) /\ pos(x) <= pos(i))
AndKappas(e, i) ==   \* the possible numbers, several if the drops are equal
    LET near == Near(e, i, Rows(e), Smaller(Cardinality(Min(e)), e.k) - 1)
        upto(j) == {i} \cup {x \in near : e.R[i][x] <= e.R[i][j]}
        mins == near \cap Min(e)
        n == Cardinality(mins)
        nth(l) == CHOOSE j \in mins : Cardinality({x \in mins : e.R[i][x] < e.R[i][j]}) = l - 1
        boxes == TLCEval([l \in 1..n |-> {x \in upto(nth(l)) : Within(e, x, i, nth(l))}])
        cover(l) == UNION {boxes[m] : m \in 1..l}
        prec == TLCEval([l \in 1..n |-> <<Cardinality(cover(l) \cap Min(e)), Cardinality(cover(l))>>])
        drop(l) == <<prec[l + 1][1] * prec[l][2] - prec[l][1] * prec[l + 1][2], prec[l + 1][2] * prec[l][2]>>
        ls == 1..(n - 1)
    IN IF n < 2 THEN {0}
       ELSE {l + 1 : l \in {x \in ls : \A z \in ls : drop(x)[1] * drop(z)[2] <= drop(z)[1] * drop(x)[2]}}

(* rows of a given cluster *)
Clu(e, i) == {j \in Rows(e) : e.clu[j] = e.clu[i]}
KMeansUsable(e, i) ==
    LET c == Clu(e, i)
        a == Cardinality(c \cap Maj(e)) + 1
        b == Cardinality(c \cap Min(e)) + 1
    IN a * e.irt[2] < e.irt[1] * b /\ b > 2

(* VIS-RST: the classification after relabelling the boundary; dangerous samples are copied among many of them, interpolated among few *)
Vis(e) ==
    LET pos == {i \in Rows(e) : e.relabelled[i]}
        w == Width(e, e.k)
        away(i) == Cardinality(Near(e, i, Rows(e), e.k) \ pos)
        saf == {i \in pos : 2 * away(i) < w}
        dan == {i \in pos : 2 * away(i) >= w /\ away(i) < w}
    IN [pos |-> pos, saf |-> saf, dan |-> dan,
        mode |-> IF saf = {} THEN "no_safe" ELSE IF 10 * Cardinality(dan) > 3 * Cardinality(pos) THEN "high" ELSE "low"]

---------------------------------------------------------------------------
Others(c) == {c.s[x] : x \in DOMAIN c.s}
One(c) == Cardinality(Others(c)) <= 1

(* what is computed once per dataset *)
Facts(e) == TLCEval(
    CASE e.cls \in {"Borderline_SMOTE1", "Borderline_SMOTE2"} -> [base |-> Danger(e), pool |-> Min(e) \ Noise(e)]
      [] e.cls = "ADASYN" -> [base |-> Hard(e), pool |-> Min(e)]
      [] e.cls = "Edge_Det_SMOTE" -> [base |-> IF Edges(e) = {} THEN Min(e) ELSE Edges(e), pool |-> Min(e)]
      [] e.cls = "ANS" -> LET U == ANSUsed(e) IN [base |-> U, pool |-> U, eps |-> IF U = {} THEN 0 ELSE Max({FirstPos(e, i) : i \in U})]
      [] e.cls = "MWMOTE" -> [base |-> Informative(e), pool |-> Min(e)]
      [] e.cls = "ProWSyn" -> [base |-> Min(e), pool |-> Min(e), levels |-> Levels(e, Min(e), e.L)]
      [] e.cls = "CBSO" -> [base |-> LET H == {i \in Min(e) : MajAround(e, i, e.k) > 0} IN IF H = {} THEN Min(e) ELSE H, pool |-> Min(e)]
      [] e.cls = "Assembled_SMOTE" -> [base |-> Min(e), pool |-> Min(e), border |-> Border(e)]
      [] e.cls = "NRSBoundary_SMOTE" -> [base |-> Bound(e), pool |-> Min(e)]
      [] e.cls = "MSMOTE" -> [base |-> Min(e) \ Noisy(e), pool |-> Rows(e), secure |-> Secure(e)]
      [] e.cls = "kmeans_SMOTE" -> [base |-> {i \in Min(e) : KMeansUsable(e, i)}, pool |-> Min(e)]
      [] e.cls = "TRIM_SMOTE" -> LET T == TrimRows(e) IN [base |-> T, pool |-> T]
      [] e.cls = "SOI_CJ" -> LET C == SoiClusters(e) IN [base |-> UNION C, pool |-> UNION C, clusters |-> C]
      [] e.cls = "DBSMOTE" -> LET lab == DbLabels(e)
                                  C == {{i \in Rows(e) : lab[i] = lab[j]} : j \in {i \in Rows(e) : lab[i] > 0}}
                                  T == TLCEval(UNION {{DbTree(e, S, i) : i \in {x \in S : e.centre[x]}} : S \in C})   \* two rows are equally close to their centre
                              IN [base |-> UNION C, pool |-> UNION C, edges |-> UNION {t.edges : t \in T}, roots |-> UNION {t.roots : t \in T}]
      [] e.cls = "AND_SMOTE" -> LET K == TLCEval([i \in Min(e) |-> AndKappas(e, i)]) IN [base |-> {i \in Min(e) : K[i] # {0}}, pool |-> Min(e), kappas |-> K]
      [] e.cls = "A_SUWO" -> [base |-> Min(e) \ SuwoNoise(e), pool |-> Min(e), clusters |-> SuwoClusters(e)]
      [] e.cls = "ISMOTE" -> [base |-> Min(e), pool |-> {i \in Rows(e) : e.kept[i]}]
      [] e.cls = "VIS_RST" -> LET v == Vis(e) IN
           [base |-> IF v.mode = "no_safe" THEN v.pos ELSE v.dan \cup v.saf, pool |-> v.pos,
            copied |-> IF v.mode = "high" THEN v.dan ELSE IF v.mode = "low" THEN v.saf ELSE {}, moved |-> IF v.mode = "high" THEN v.saf ELSE IF v.mode = "low" THEN v.dan ELSE v.pos]
      [] OTHER -> [base |-> Min(e), pool |-> Min(e)])

Plain == {"SMOTE", "SDSMOTE", "MCT", "Lee", "SMOTE_D", "G_SMOTE", "Selected_SMOTE", "SMOBD", "SMOTE_RSB"}
AnyPair == {"SMOTEWB", "CE_SMOTE", "Supervised_SMOTE"}

Allowed(e, F, c) ==
    LET s == Others(c)  b == c.b IN
    /\ b \in F.base
    /\ \/ s = {} /\ e.copies /\ (e.cls = "VIS_RST" => b \in F.copied) /\ (e.cls = "TRIM_SMOTE" => Cardinality(F.base) = 1)
                /\ (e.cls = "DBSMOTE" => b \in F.roots) /\ (e.cls = "AND_SMOTE" => FALSE)
       \/ s # {} /\
          CASE e.cls \in Plain \cup {"Edge_Det_SMOTE", "ADASYN", "Borderline_SMOTE1", "NRSBoundary_SMOTE"} -> s \subseteq Near(e, b, F.pool, e.k)
            [] e.cls = "NT_SMOTE" -> s \subseteq Near(e, b, F.pool, e.ndim - 1)
            [] e.cls = "Random_SMOTE" -> s \subseteq Near(e, b, F.pool, e.k)
            [] e.cls = "SMOTE_PARTIAL" -> s \subseteq Near(e, b, F.pool, e.k)
            [] e.cls = "Borderline_SMOTE2" -> One(c) /\ s \subseteq Near(e, b, Rows(e), e.k) /\ (s \subseteq Min(e) \/ c.hi <= 5001)
            [] e.cls = "ISMOTE" ->
                 /\ One(c) /\ s \subseteq Near(e, b, F.pool, e.k)
                 /\ c.hi * e.weight[2] <= (IF s \subseteq Min(e) THEN e.weight[1] ELSE e.weight[2] - e.weight[1]) * 10000 + e.weight[2]
            [] e.cls = "Safe_Level_SMOTE" -> One(c) /\ s \subseteq Near(e, b, Rows(e), e.k) /\ \A j \in s : Gap(SafeLevel(e, b), SafeLevel(e, j), c)
            [] e.cls = "LN_SMOTE" -> One(c) /\ s \subseteq Near(e, b, Rows(e), LNk(e)) /\ \A j \in s : LNGap(e, b, j, c)
            [] e.cls = "MSMOTE" -> One(c) /\ s \subseteq Near(e, b, Rows(e), IF b \in F.secure THEN e.k ELSE 1)
            [] e.cls = "NDO_sampling" ->
                 IF e.separated THEN s \subseteq Near(e, b, Min(e), 5)
                 ELSE /\ One(c) /\ c.hi <= 5001
                      /\ \A j \in s : j \in Near(e, b, Rows(e), e.k) \/ (j \in Min(e) /\ b \in Near(e, j, Rows(e), e.k))
            [] e.cls \in {"distance_SMOTE", "SMMO"} -> s = Near(e, b, Min(e), e.k)
            [] e.cls = "ADOMS" -> s = Near(e, b, Min(e), e.k) \cup {b} /\ c.lo <= 10000
            [] e.cls \in {"SMOTE_OUT", "SMOTE_Cosine"} ->   \* <<minority neighbour, majority neighbour>>
                 /\ c.s[1] \in (IF e.cls = "SMOTE_OUT" THEN Near(e, b, Min(e), e.k) ELSE Min(e) \ {b})
                 /\ c.s[2] \in Near(e, b, Maj(e), IF e.cls = "SMOTE_OUT" THEN e.k + 1 ELSE e.k)
            [] e.cls = "ANS" -> s \subseteq {j \in F.pool \ {b} : e.R[b][j] <= F.eps}
            [] e.cls = "MWMOTE" -> s \subseteq (Clu(e, b) \cap Min(e))
            [] e.cls = "ProWSyn" -> \E l \in DOMAIN F.levels : b \in F.levels[l] /\ s \subseteq F.levels[l]
            [] e.cls = "TRIM_SMOTE" -> s \subseteq Near(e, b, F.pool, e.k)
            [] e.cls = "SOI_CJ" -> One(c) /\ \E C \in F.clusters : b \in C /\ s \subseteq C
            [] e.cls = "DBSMOTE" -> One(c) /\ \A j \in s : <<b, j>> \in F.edges \/ <<j, b>> \in F.edges
            [] e.cls = "AND_SMOTE" -> \E k \in F.kappas[b] : s \subseteq Near(e, b, F.pool, k)
            [] e.cls = "A_SUWO" -> \E C \in F.clusters : b \in C /\ s \subseteq Near(e, b, C, e.k - 1)
            [] e.cls = "CBSO" -> s \subseteq Reach(e, {b})
            [] e.cls = "Assembled_SMOTE" -> s \subseteq (IF b \in F.border THEN F.border ELSE Min(e) \ F.border)
            [] e.cls = "cluster_SMOTE" -> s \subseteq Near(e, b, Clu(e, b) \cap Min(e), e.k - 1)
            [] e.cls = "kmeans_SMOTE" -> s \subseteq Near(e, b, Clu(e, b) \cap Min(e), e.k)
            [] e.cls = "SMOTE_AMSR" /\ e.topology = "mesh" -> s \subseteq Min(e)
            [] e.cls = "SMOTE_AMSR" /\ e.topology = "bus" -> \A j \in s : j \in Min(e) /\ {x \in Min(e) : (b < x /\ x < j) \/ (j < x /\ x < b)} = {}
            [] e.cls = "SMOTE_AMSR" /\ e.topology = "star" -> s = Min(e)
            [] e.cls = "VIS_RST" -> b \in F.moved /\ s \subseteq Near(e, b, F.pool, e.k)
            [] e.cls \in AnyPair -> s \subseteq F.pool

(* a rule that has something to place does not decline (decided where the rule alone decides it; the pair of
   ANS which defines the radius lies on its border, up to rounding) *)
Places(e) ==
    CASE e.cls \in {"SMOTE", "distance_SMOTE", "Random_SMOTE", "SMOTE_OUT", "SMOTE_Cosine", "Selected_SMOTE", "ADOMS", "MCT", "Lee", "NT_SMOTE", "ProWSyn", "CBSO", "Edge_Det_SMOTE"} -> TRUE
      [] e.cls \in {"Borderline_SMOTE1", "Borderline_SMOTE2"} -> SurelyDanger(e) # {} /\ Cardinality(Min(e) \ Noise(e)) >= 2
      [] e.cls = "ADASYN" -> Hard(e) # {} /\ e.dth
      [] e.cls = "MSMOTE" -> Noisy(e) # Min(e)
      [] e.cls = "Safe_Level_SMOTE" -> \E i \in Min(e) : SafeLevel(e, i) > 0
      [] e.cls = "LN_SMOTE" -> LNk(e) >= 2 /\ \E i \in Min(e) : LNLevel(e, i) > 0 /\ \E n \in Near(e, i, Rows(e), LNk(e)) : LNOther(e, i, n) > 0
      [] e.cls = "ANS" -> LET F == Facts(e) IN \E i, j \in F.base : i # j /\ e.R[i][j] < F.eps
      [] e.cls = "MWMOTE" -> Informative(e) # {}
      [] e.cls \in {"kmeans_SMOTE", "TRIM_SMOTE", "SOI_CJ", "DBSMOTE", "AND_SMOTE"} -> Facts(e).base # {}
      [] e.cls \in {"ISMOTE", "cluster_SMOTE", "NDO_sampling", "SDSMOTE", "SMOTE_RSB"} -> e.cls # "cluster_SMOTE" \/ \E i, j \in Min(e) : i # j /\ e.clu[i] = e.clu[j]
      [] OTHER -> FALSE

---------------------------------------------------------------------------
(* With many samples drawn (e.full) every row the rule admits as base is used, and every segment of the     *)
(* rules drawing base and neighbour independently.  The chance of missing one is below 10^-6 per dataset,   *)
(* and the draws are pseudo-random, hence the same in every run of the check.                               *)
MustBases(e, F) ==
    CASE e.cls \in {"SMOTE", "Random_SMOTE", "SMOTE_OUT", "SMOTE_Cosine", "Selected_SMOTE", "distance_SMOTE", "ADOMS", "SDSMOTE", "cluster_SMOTE", "NT_SMOTE", "NDO_sampling"} -> Min(e)
      [] e.cls \in {"Borderline_SMOTE1", "Borderline_SMOTE2"} -> SurelyDanger(e)
      [] e.cls \in {"ADASYN", "MSMOTE", "Edge_Det_SMOTE", "CBSO"} -> F.base
      [] e.cls \in {"TRIM_SMOTE", "SOI_CJ", "AND_SMOTE"} -> F.base
      [] e.cls = "ProWSyn" -> F.levels[1]
      [] e.cls = "Safe_Level_SMOTE" -> {i \in Min(e) : SafeLevel(e, i) > 0}
      [] e.cls = "LN_SMOTE" -> {i \in Min(e) : LNLevel(e, i) > 0 /\ \E n \in Near(e, i, Rows(e), LNk(e)) : LNOther(e, i, n) > 0}
      [] e.cls = "ANS" -> {i \in F.base : \E j \in F.base : i # j /\ e.R[i][j] < F.eps}
      [] e.cls = "SMOTE_AMSR" -> IF e.topology = "bus" THEN {} ELSE Min(e)
      [] OTHER -> {}
MustPairs(e, F) ==
    CASE e.cls \in {"SMOTE", "ADASYN", "SDSMOTE", "Edge_Det_SMOTE", "Selected_SMOTE"} -> {<<i, j>> \in F.base \X F.pool : j \in Near(e, i, F.pool, e.k)}
      [] e.cls = "Borderline_SMOTE1" -> {<<i, j>> \in SurelyDanger(e) \X F.pool : j \in Near(e, i, F.pool, e.k)}
      [] e.cls = "Borderline_SMOTE2" -> {<<i, j>> \in SurelyDanger(e) \X Rows(e) : j \in Near(e, i, Rows(e), e.k)}
      [] e.cls = "NT_SMOTE" -> {<<i, j>> \in F.base \X F.pool : j \in Near(e, i, F.pool, e.ndim - 1)}
      [] e.cls = "MSMOTE" -> {<<i, j>> \in F.base \X Rows(e) : j \in Near(e, i, Rows(e), IF i \in F.secure THEN e.k ELSE 1)}
      [] e.cls = "cluster_SMOTE" -> {<<i, j>> \in Min(e) \X Min(e) : j \in Near(e, i, Clu(e, i) \cap Min(e), e.k - 1)}
      [] e.cls = "Safe_Level_SMOTE" -> {<<i, j>> \in Min(e) \X Rows(e) : SafeLevel(e, i) > 0 /\ SafeLevel(e, j) > 0 /\ j \in Near(e, i, Rows(e), e.k)}
      [] e.cls = "SMOTE_AMSR" -> IF e.topology = "mesh" THEN {<<i, j>> \in Min(e) \X Min(e) : i # j} ELSE {}
      [] e.cls = "ANS" -> {<<i, j>> \in F.base \X F.base : i # j /\ e.R[i][j] < F.eps}
      [] e.cls = "CBSO" -> {<<i, j>> \in F.base \X Min(e) : i # j /\ j \in Reach(e, {i})}
      [] e.cls = "TRIM_SMOTE" -> {<<i, j>> \in F.base \X F.base : j \in Near(e, i, F.base, e.k)}
      [] e.cls = "SOI_CJ" -> UNION {{<<i, j>> \in C \X C : i # j} : C \in F.clusters}
      [] e.cls = "DBSMOTE" -> {<<v, u>> \in F.edges : \A w \in F.base : <<v, w>> \in F.edges => w = u}
      [] e.cls = "AND_SMOTE" -> {<<i, j>> \in F.base \X F.pool : \A k \in F.kappas[i] : j \in Near(e, i, F.pool, k)}
      [] e.cls = "ProWSyn" -> {<<i, j>> \in F.levels[1] \X F.levels[1] : i # j}
      [] e.cls = "NDO_sampling" -> IF e.separated THEN {} ELSE {<<i, j>> \in Min(e) \X Rows(e) : j \in Near(e, i, Rows(e), e.k)}
      [] OTHER -> {}
UsedBases(e, F) == UNION {{c.b : c \in {x \in {e.pts[p][q] : q \in DOMAIN e.pts[p]} : Allowed(e, F, x)}} : p \in DOMAIN e.pts}
UsedPairs(e, F) == UNION {UNION {{<<c.b, j>> : j \in Others(c)} \cup {<<j, c.b>> : j \in Others(c)} : c \in {x \in {e.pts[p][q] : q \in DOMAIN e.pts[p]} : Allowed(e, F, x)}} : p \in DOMAIN e.pts}

---------------------------------------------------------------------------
(* samplers which are functions of the neighbourhoods *)

(* Stefanowski: amplification of the minority by copies *)
Safe(e) == {i \in Rows(e) : 2 * SameAround(e, i, 3) > Width(e, 3)}
SafeMajAround(e, i, k, S) == Cardinality({j \in Near(e, i, Rows(e), k) : ~e.mn[j] /\ j \in S})
StefCopies(e) ==
    LET S == TLCEval(Safe(e)) IN
    [i \in Rows(e) |->
       IF ~e.mn[i] THEN 0
       ELSE IF e.strategy # "strong_amp" THEN (IF i \in S THEN 0 ELSE SafeMajAround(e, i, 3, S))
       ELSE IF i \in S \/ 2 * SameAround(e, i, 5) > Width(e, 5) THEN SafeMajAround(e, i, 3, S)
       ELSE SafeMajAround(e, i, 5, S)]
StefRelabelled(e) ==
    LET S == TLCEval(Safe(e)) IN
    IF e.strategy # "weak_amp_relabel" THEN {}
    ELSE UNION {{j \in Near(e, i, Rows(e), 3) : ~e.mn[j] /\ j \notin S} : i \in {i \in Min(e) : i \notin S}}
StefRemoved(e) == {j \in Maj(e) : j \notin Safe(e)} \ StefRelabelled(e)

(* SPY: majority neighbours of minority rows with few majority neighbours change sides *)
SpyRelabelled(e) ==
    UNION {{j \in Near(e, i, Rows(e), e.k) : ~e.mn[j]} :
           i \in {i \in Min(e) : MajAround(e, i, e.k) * e.threshold[2] < e.threshold[1] * (Width(e, e.k) + 1)}}

(* VIS-RST: majority rows with a minority neighbour change sides, unless the majority is lost by that *)
VisRelabelled(e) == {j \in Maj(e) : Cnt(Near(e, j, Rows(e), e.k), LAMBDA l : e.mn[l]) > 0}
VisAborted(e) ==
    LET M == Min(e) \cup VisRelabelled(e) IN
    \/ 2 * Cardinality(M) >= Len(e.mn)
    \/ \A i \in M : Near(e, i, Rows(e), e.k) \cap M = {}

(* A-SUWO: rows without a neighbour of their class are removed *)
(* ISMOTE: the majority rows farthest (on average) from the minority are removed *)
IsmoteRemoved(e) == LET q == e.quota IN {i \in Maj(e) : Cardinality({j \in Maj(e) : e.far[j] > e.far[i]}) < q}
=============================================================================
