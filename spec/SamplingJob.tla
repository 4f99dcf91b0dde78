----------------------------- MODULE SamplingJob -----------------------------
(* One cell of an evaluation (C12): a sampling job (load, scale, sample,     *)
(* transform, report) and the evaluation job built on its result.  The step  *)
(* structure follows the code; the provenance of every quantity is tracked,  *)
(* so that "no test data reaches the training" is a property of the state.   *)
EXTENDS SVBase, TLC

(* behaviour of the oversampler and of the classifier; of the job *)
OSBehaviours == {"ok", "reduces", "sample ValueError", "sample RuntimeError", "transform ValueError", "transform RuntimeError"}
CLBehaviours == {"ok", "fit ValueError", "fit RuntimeError", "predict ValueError", "predict RuntimeError"}
Scalers == {"none", "standard", "minmax", "robust"}
Sources == {"dict", "json", "pickle"}
Stores == {"memory", "json", "pickle"}
Modes == {"execute", "timeout"}

Start(cfg) == [cfg |-> cfg, phase |-> "load", xtrain |-> "none", xtest |-> "none", error |-> FALSE, runtime |-> "none",
               scalerSaw |-> {}, trainSaw |-> {}, yTest |-> "raw", pred |-> "none", clError |-> FALSE, clSaw |-> {}]

OsFails(c) == c.os \in {"sample ValueError", "sample RuntimeError"}
TrFails(c) == c.os \in {"transform ValueError", "transform RuntimeError"}
ClFails(c) == c.cl # "ok"

(* one step of the job *)
Step(s) ==
    LET c == s.cfg IN
    CASE s.phase = "load" -> [s EXCEPT !.phase = "scale", !.xtrain = "raw", !.xtest = "raw", !.trainSaw = {"train"}]
      [] s.phase = "scale" ->
            IF c.scaler = "none" THEN [s EXCEPT !.phase = IF c.mode = "timeout" THEN "timeout" ELSE "sample"]
            ELSE [s EXCEPT !.phase = IF c.mode = "timeout" THEN "timeout" ELSE "sample",
                           !.scalerSaw = {"train"}, !.xtrain = "scaled", !.xtest = "scaled"]
      [] s.phase = "sample" ->
            IF OsFails(c) THEN [s EXCEPT !.phase = "evaluate", !.error = TRUE, !.runtime = "measured"]
            ELSE [s EXCEPT !.phase = "transform", !.trainSaw = s.trainSaw \cup s.scalerSaw]
      [] s.phase = "transform" ->
            IF TrFails(c) THEN [s EXCEPT !.phase = "evaluate", !.error = TRUE, !.runtime = "measured"]   \* the pair stays consistent: both unsampled
            ELSE [s EXCEPT !.phase = "evaluate", !.xtrain = "sampled", !.xtest = "transformed", !.runtime = "measured"]
      [] s.phase = "timeout" -> [s EXCEPT !.phase = "evaluate", !.error = TRUE, !.runtime = "minus one"]
      [] s.phase = "evaluate" ->
            [s EXCEPT !.phase = "done", !.clSaw = s.trainSaw, !.clError = ClFails(c), !.pred = IF ClFails(c) THEN "zeros" ELSE "predicted"]
      [] OTHER -> s
RECURSIVE Run(_)
Run(s) == IF s.phase = "done" THEN s ELSE Run(Step(s))
Expected(cfg) == Run(Start(cfg))
(* the scaled kind without a scaler is the raw one *)
Kind(cfg, k) == k

(* the unsampled form of the data *)
Unsampled(cfg) == IF cfg.scaler = "none" THEN "raw" ELSE "scaled"

VARIABLE job
Configs == [os : OSBehaviours, cl : CLBehaviours, scaler : Scalers, source : Sources, store : Stores, mode : Modes]
JInit == \E c \in Configs : job = Start(c)
JNext == job.phase # "done" /\ job' = Step(job)
JSpec == JInit /\ [][JNext]_job /\ WF_job(JNext)

NoLeak == "test" \notin job.scalerSaw \cup job.trainSaw \cup job.clSaw
TypeOK == job.xtrain \in {"none", "raw", "scaled", "sampled"} /\ job.xtest \in {"none", "raw", "scaled", "transformed"}
FailureIsData == job.phase = "done" =>
    /\ (job.error <=> (OsFails(job.cfg) \/ TrFails(job.cfg) \/ job.cfg.mode = "timeout"))
    /\ (job.error => job.xtrain = Unsampled(job.cfg) /\ job.xtest = Unsampled(job.cfg))
    /\ (~job.error => job.xtrain = "sampled" /\ job.xtest = "transformed")
    /\ job.yTest = "raw"
    /\ (job.clError <=> job.pred = "zeros")
Finishes == <>(job.phase = "done")
(* training and test data are always in the same space *)
SameSpace == job.phase = "done" => ((job.xtrain = "sampled") <=> (job.xtest = "transformed"))
=============================================================================
