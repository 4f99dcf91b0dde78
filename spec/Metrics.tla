------------------------------- MODULE Metrics -------------------------------
(* Classification scores (C15) by definition, in integer arithmetic: a score *)
(* is checked against a rational, a square or a sum of logarithms of small   *)
(* integers (table, in millionths).  Recorded scores are in millionths,      *)
(* wrapped as <<v>>, <<>> being the neutral value None.                      *)
EXTENDS SVBase

LnTab == <<0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585, 2397895, 2484907, 2564949, 2639057, 2708050, 2772589, 2833213, 2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054, 3218876, 3258097, 3295837, 3332205, 3367296, 3401197, 3433987, 3465736, 3496508, 3526361, 3555348, 3583519, 3610918, 3637586, 3663562, 3688879, 3713572, 3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201, 3891820, 3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352, 4043051, 4060443, 4077537, 4094345, 4110874, 4127134, 4143135, 4158883>>
Ln(k) == LnTab[k]
ClipLn == -36043653        \* logarithm of the clipping probability of log_loss

(* ---- predictions from probabilities k/Q of label 1; ties at a half: a single tie is 0, of more ties the first half is 0 ---- *)
Predict(p, Q) ==
    LET ties == SelectSeq(Identity(Len(p)), LAMBDA i : 2 * p[i] = Q)
        half == Len(ties) \div 2
        rank(i) == CHOOSE j \in DOMAIN ties : ties[j] = i
    IN [i \in DOMAIN p |-> IF 2 * p[i] > Q THEN 1
                           ELSE IF 2 * p[i] < Q THEN 0
                           ELSE IF Len(ties) <= 1 THEN 0
                           ELSE IF rank(i) <= half THEN 0 ELSE 1]

(* ---- confusion counts, m the minority (positive) label ---- *)
Cnt(S) == Cardinality(S)
TP(y, q, m) == Cnt({i \in DOMAIN y : y[i] = m /\ q[i] = m})
FN(y, q, m) == Cnt({i \in DOMAIN y : y[i] = m /\ q[i] # m})
TN(y, q, m) == Cnt({i \in DOMAIN y : y[i] # m /\ q[i] = y[i]})
FP(y, q, m) == Cnt({i \in DOMAIN y : y[i] # m /\ q[i] # y[i]})
Atoms(y, q, m) == [tp |-> TP(y, q, m), fn |-> FN(y, q, m), tn |-> TN(y, q, m), fp |-> FP(y, q, m)]

M == 1000000
IsRate(v) == Len(v) = 1 /\ Abs(v[1]) <= 2 * M
(* v millionths equal to the rational a/b (b > 0) *)
IsRat(v, a, b) == IsRate(v) /\ Abs(v[1] * b - a * M) <= 2 * b
IsZero(v) == Len(v) = 1 /\ v[1] = 0
IsNone(v) == v = <<>>
Near(v, w, tol) == Len(v) = 1 /\ Abs(v[1] - w) <= tol
(* square roots in thousandths: v = sqrt(a/b), a <= 4000, b <= 400 *)
Thousandth(x) == IF x >= 0 THEN (x + 500) \div 1000 ELSE -((-x + 500) \div 1000)
IsSqrt(v, a, b) == IsRate(v) /\ v[1] >= 0 /\
    LET t == Thousandth(v[1]) IN (IF t = 0 THEN 0 ELSE (t - 1) * (t - 1) * b) <= a * M /\ (t + 1) * (t + 1) * b >= a * M

LogScore(k, a, b) == k * (Ln(k) - Ln(a) - Ln(b))     \* k ln(k / (a b))

(* the scores of a confusion matrix; a = [tp, fn, tn, fp], s = recorded scores *)
P(a) == a.tp + a.fn
N(a) == a.fp + a.tn
Num(a) == a.tp * a.tn - a.fp * a.fn
PP(a) == a.tp + a.fp
PN(a) == a.tn + a.fn
ScoreOK(a, s) == [
    acc |-> IsRat(s.acc, a.tp + a.tn, P(a) + N(a)),
    sens |-> IsRat(s.sens, a.tp, P(a)),
    spec |-> IsRat(s.spec, a.tn, N(a)),
    ppv |-> IF PP(a) > 0 THEN IsRat(s.ppv, a.tp, PP(a)) ELSE IsZero(s.ppv),
    npv |-> IF PN(a) > 0 THEN IsRat(s.npv, a.tn, PN(a)) ELSE IsZero(s.npv),
    fpr |-> IsRat(s.fpr, a.fp, N(a)),
    fnr |-> IsRat(s.fnr, a.fn, P(a)),
    fdr |-> IF PP(a) > 0 THEN IsRat(s.fdr, a.fp, PP(a)) ELSE Near(s.fdr, M, 1),
    bacc |-> IsRat(s.bacc, a.tp * N(a) + a.tn * P(a), 2 * P(a) * N(a)),
    gacc |-> IsSqrt(s.gacc, a.tp * a.tn, P(a) * N(a)),
    f1 |-> IsRat(s.f1, 2 * a.tp, 2 * a.tp + a.fp + a.fn),
    informedness |-> IsRat(s.informedness, a.tp * N(a) + a.tn * P(a) - P(a) * N(a), P(a) * N(a)),
    markedness |-> IF PP(a) > 0 /\ PN(a) > 0 THEN IsRat(s.markedness, a.tp * PN(a) + a.tn * PP(a) - PP(a) * PN(a), PP(a) * PN(a))
                   ELSE IF PP(a) > 0 THEN IsRat(s.markedness, a.tp - PP(a), PP(a)) ELSE IsRat(s.markedness, a.tn - PN(a), PN(a)),
    mcc |-> IF PP(a) = 0 \/ PN(a) = 0 THEN IsNone(s.mcc)
            ELSE /\ IsRate(s.mcc) /\ (Num(a) > 0 => s.mcc[1] > 0) /\ (Num(a) < 0 => s.mcc[1] < 0) /\ (Num(a) = 0 => s.mcc[1] = 0)
                 \* mcc^2 is informedness times markedness; in ten thousandths
                 /\ LET inf == (Abs(Num(a)) * 10000) \div (P(a) * N(a))
                        mar == (Abs(Num(a)) * 10000) \div (PP(a) * PN(a))
                        t == (Abs(s.mcc[1]) + 50) \div 100
                    IN Abs(t * t - inf * mar) <= 60000,
    l |-> Near(s.l, (P(a) + N(a)) * Ln(P(a) + N(a)), 50),
    lp |-> Near(s.lp, P(a) * (Ln(P(a)) - Ln(P(a) + N(a))), 50),
    ln |-> Near(s.ln, N(a) * (Ln(N(a)) - Ln(P(a) + N(a))), 50),
    ltp |-> IF a.tp = 0 THEN IsNone(s.ltp) ELSE Near(s.ltp, LogScore(a.tp, PP(a), P(a)), 80),
    lfp |-> IF a.fp = 0 THEN IsNone(s.lfp) ELSE Near(s.lfp, LogScore(a.fp, PP(a), N(a)), 80),
    lfn |-> IF a.fn = 0 THEN IsNone(s.lfn) ELSE Near(s.lfn, LogScore(a.fn, P(a), PN(a)), 80),
    ltn |-> IF a.tn = 0 THEN IsNone(s.ltn) ELSE Near(s.ltn, LogScore(a.tn, N(a), PN(a)), 80),
    \* uncertainty coefficient: (L + sum of the cells) / (L + LP + LN), in thousandths
    uc |-> IF a.tp = 0 \/ a.fp = 0 \/ a.fn = 0 \/ a.tn = 0 THEN IsNone(s.uc)
           ELSE LET T == P(a) + N(a)
                    num == T * Ln(T) + LogScore(a.tp, PP(a), P(a)) + LogScore(a.fp, PP(a), N(a)) + LogScore(a.fn, P(a), PN(a)) + LogScore(a.tn, N(a), PN(a))
                    den == T * Ln(T) + P(a) * (Ln(P(a)) - Ln(T)) + N(a) * (Ln(N(a)) - Ln(T))
                IN /\ IsRate(s.uc)
                   /\ IF den <= 0 THEN TRUE ELSE Abs(Thousandth(s.uc[1]) * (den \div 1000) - num) <= den \div 100 + 2000]

(* ---- scores of probabilities p/Q, label 1 being positive ---- *)
TopN(y) == Max(Len(y) \div 5, 1)
(* the top samples by probability; among equal ones the earlier *)
Top(p, n) == {i \in DOMAIN p : Cnt({j \in DOMAIN p : p[j] > p[i] \/ (p[j] = p[i] /\ j < i)}) < n}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Brier(y, p, Q) == SumSeq([i \in DOMAIN y |-> (p[i] - Q * y[i]) * (p[i] - Q * y[i])])
AucNum(y, p) == SumSeq([i \in DOMAIN y |-> IF y[i] = 1 THEN 2 * Cnt({j \in DOMAIN y : y[j] = 0 /\ p[j] < p[i]}) + Cnt({j \in DOMAIN y : y[j] = 0 /\ p[j] = p[i]}) ELSE 0])
LnP(k, Q) == IF k = 0 THEN ClipLn ELSE Ln(k) - Ln(Q)
LogLoss(y, p, Q) == SumSeq([i \in DOMAIN y |-> -LnP(IF y[i] = 1 THEN p[i] ELSE Q - p[i], Q) \div 10])   \* in hundred thousandths, times n
ProbOK(y, p, Q, s) == [
    p_top20 |-> LET T == Top(p, TopN(y))
                    th == MinOf({p[i] : i \in T})
                    sure == Cnt({i \in T : p[i] > th /\ y[i] = 1})
                    \* which of the samples tied at the threshold are taken is not part of the definition
                    tied == {i \in DOMAIN p : p[i] = th}
                    k == TopN(y) - Cnt({i \in DOMAIN p : p[i] > th})
                    lo == Max(0, k - Cnt({i \in tied : y[i] # 1}))
                    hi == Min(k, Cnt({i \in tied : y[i] = 1}))
                IN \E x \in lo..hi : IsRat(s.p_top20, sure + x, TopN(y)),
    brier |-> IsRate(s.brier) /\ Abs((s.brier[1] \div 10) * (Len(y) * Q * Q) - Brier(y, p, Q) * 100000) <= 2 * Len(y) * Q * Q,
    auc |-> LET np == Count(y, 1) nn == Count(y, 0) IN IsRat(s.auc, AucNum(y, p), 2 * np * nn),
    log_loss |-> Len(s.log_loss) = 1 /\ Abs(s.log_loss[1]) <= 40 * M /\ Abs((s.log_loss[1] \div 10) * Len(y) - LogLoss(y, p, Q)) <= 4 * Len(y)]
=============================================================================
