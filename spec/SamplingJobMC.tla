---------------------------- MODULE SamplingJobMC ----------------------------
EXTENDS SamplingJob, Json
Emit == IF job.phase = "done" THEN PrintT(<<"CASE", ToJson(job.cfg)>>) ELSE TRUE
Inv == TypeOK /\ NoLeak /\ FailureIsData /\ SameSpace /\ Emit
=============================================================================
