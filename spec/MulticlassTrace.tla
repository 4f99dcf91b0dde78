---------------------------- MODULE MulticlassTrace ----------------------------
EXTENDS TraceBase
VARIABLE l
M == INSTANCE Multiclass WITH MaxClasses <- 0, MaxSize <- 0, Strategies <- {}, Least <- 2, n <- <<>>, strat <- "", i <- 0, out <- <<>>
N(e) == Len(e.yin)
Biggest(y) == M!MaxOf({M!Count(y, v) : v \in M!Labels(y)})
(* the classes of the largest size are the majority classes *)
Majority(y) == {v \in M!Labels(y) : M!Count(y, v) = Biggest(y)}
Verdict(e) ==
    IF e.op # "mc" THEN {"unknown event"}
    ELSE IF e.err # "" THEN {"raises"}
    ELSE    Broken("input untouched", e.pure)
       \cup Broken("original data first and unchanged",
                   Len(e.yout) >= N(e) /\ e.rows /\ SubSeq(e.yout, 1, N(e)) = e.yin)
       \cup Broken("only non-majority classes are extended", \A v \in Majority(e.yin) : M!Count(e.yout, v) = Biggest(e.yin))
       \cup Broken("no new labels", M!Labels(e.yout) = M!Labels(e.yin))
       \cup Broken("every class raised to the size of the largest",
                   e.exact => \A v \in M!Labels(e.yin) : M!Raised(M!Count(e.yin, v), M!Count(e.yout, v), Biggest(e.yin)))
       \cup Broken("too small classes left as they are",
                   \A v \in M!Labels(e.yin) : M!Count(e.yin, v) <= 2 => M!Count(e.yout, v) = M!Count(e.yin, v))
       \cup Broken("generated samples carry the label of their class",
                   \A k \in DOMAIN e.origin : e.origin[k] = e.yout[N(e) + k])
       \cup Broken("parameters untouched", e.psame)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
