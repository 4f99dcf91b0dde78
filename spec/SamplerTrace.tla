----------------------------- MODULE SamplerTrace -----------------------------
(* Validates recorded oversampling calls of the real code against the        *)
(* contract of Sampler.tla and the tables of SamplerContract.tla.            *)
(* The environment variable PROP selects the judged property.                *)
EXTENDS TraceBase, SamplerContract
VARIABLE l
S == INSTANCE Sampler WITH MaxN <- 0, Props <- {}, Least <- 2,
                           phase <- "done", yin <- <<>>, prop <- <<0, 1>>, kind <- "exact", out <- <<>>

Prefix(s, n) == SubSeq(s, 1, n)
Ok(e) == e.err = ""
Src(e) == IF e.cls \in Rounding THEN e.src ELSE e.srcx
N(e) == Len(e.yin)

(* ---- C01 ---- *)
C01(e) ==
    IF e.cls \notin KeepsInput THEN {}
    ELSE IF ~Ok(e) THEN {"raises"}
    ELSE    Broken("dimension", e.dout = e.din)
       \cup Broken("row count", Len(e.yout) >= N(e))
       \cup Broken("rows and labels are paired", e.nrows[1] = e.nrows[2] /\ Len(e.yout) = e.nrows[1])
       \cup Broken("original rows first and unchanged", Len(e.yout) >= N(e) /\ Prefix(Src(e), N(e)) = S!Identity(N(e)))
       \cup Broken("original labels first and unchanged", Len(e.yout) >= N(e) /\ Prefix(e.yout, N(e)) = e.yin)
       \cup Broken("only minority samples added", S!OnlyMinorityAdded(e.yin, e.yout))

(* ---- C02 ---- *)
Decl(e) == e.yout = e.yin /\ Src(e) = S!Identity(N(e)) /\ e.dout = e.din
Few(e) == S!TooFew(e.yin, MinNMin(e.cls)) \/ e.din < MinNDim(e.cls)
C02(e) ==
    IF ~Ok(e) THEN (IF e.cls \in ExactQuota THEN {"raises"} ELSE {})
    ELSE Broken("declines when too few minority samples", Few(e) => Decl(e))
    \cup (IF ~e.hasprop \/ e.prop[2] = 0 THEN {}
          ELSE LET q == S!Quota(e.yin, e.prop)
                   g == S!Gain(e.yin, e.yout)
               IN      Broken("exact quota or decline", e.cls \in ExactQuota => (g = q \/ Decl(e)))
                  \cup Broken("not more than requested", e.cls \in AtMostQuota => g <= q)
                  \cup Broken("nothing requested, nothing generated", (q = 0 /\ e.cls \in ZeroIsNone) => Decl(e))
                  \cup Broken("proportion one balances",
                              (e.cls \in ExactQuota \cap KeepsInput /\ e.prop[1] = e.prop[2] /\ ~Decl(e))
                                 => S!Count(e.yout, S!MinLabel(e.yin)) = S!Count(e.yout, S!MajLabel(e.yin)))
                  \cup Broken("generates when it can", (e.cls \in MustGenerate /\ q > 0 /\ ~Few(e)) => ~Decl(e)))

(* ---- C03 (bounding boxes; the segments are in Geometry.tla) ---- *)
Tol == 3
InBox(rows) == \A i \in DOMAIN rows : rows[i][1] >= -Tol /\ rows[i][2] <= 1000000 + Tol
C03(e) ==
    IF ~Ok(e) \/ e.gauss THEN {}
    ELSE    Broken("inside the minority box", e.cls \in BoxMin => InBox(e.boxmin))
       \cup Broken("inside the box of all samples", e.cls \in BoxAll => InBox(e.boxall))

(* ---- C04 ---- *)
C04(e) ==
    Broken("input features untouched", e.xin_same)
    \cup Broken("input labels untouched", e.yin_same)
    \cup Broken("parameter dictionaries untouched", e.pc_same)
    \cup (IF ~Ok(e) THEN {"raises"}
          ELSE    Broken("numpy arrays", e.types /\ e.numeric)
             \cup Broken("matrix and vector", e.ndim = <<2, 1>>)
             \cup Broken("equally many rows and labels", e.nrows[1] = e.nrows[2] /\ e.nrows[1] > 0)
             \cup Broken("finite", e.finite)
             \cup Broken("labels of the input", e.intlab /\ S!Labels(e.yout) \subseteq S!Labels(e.yin))
             \cup Broken("both classes survive", e.cls \in KeepsInput => S!Labels(e.yout) = S!Labels(e.yin))
             \cup Broken("no memory shared", ~e.alias)
             \cup Broken("dimension kept", e.cls \notin DimReducing => e.dout = e.din)
             \cup Broken("transform available", e.terr = "")
             \cup Broken("transform maps to the returned dimension", e.tdim = e.dout /\ e.trows = N(e))
             \cup Broken("identity transform", (e.cls \notin DimReducing \/ Decl(e)) => e.tident)
             \cup Broken("training rows map to their images",
                         (e.cls = "E_SMOTE" /\ ~Decl(e)) =>
                             (Len(e.timg) = Len(e.yout) /\ \A i \in 1..S!Min(N(e), Len(e.timg)) : e.timg[i] = 1)))

Verdict(e) ==
    IF e.op # "sample" THEN {"unknown event"}
    ELSE CASE IOEnv.PROP = "C01" -> C01(e) [] IOEnv.PROP = "C02" -> C02(e)
           [] IOEnv.PROP = "C03" -> C03(e) [] IOEnv.PROP = "C04" -> C04(e)

Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
