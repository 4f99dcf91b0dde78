-------------------------------- MODULE Pool --------------------------------
(* The timeout process pool (C14).  K workers take the jobs 1..N in order;   *)
(* each job runs in its own process, which finishes with a result (a large   *)
(* one stays in the process until the pool reads it), fails without a result *)
(* or hangs until its timeout.  A worker waits for its process, stores the   *)
(* result or the fallback at the position of the job and takes the next one. *)
(* The pool is executed Rounds times.                                        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, MaxK, Rounds, Kinds
VARIABLES k,          \* number of workers
          kind,       \* job -> its behaviour
          round, idx, \* current execution, next job
          cur,        \* worker -> job being managed (0: none)
          proc,       \* job -> "none", "running", "sending", "exited", "killed"
          pipe,       \* job -> whether a result is available for reading
          res,        \* job -> "none", "own", "fallback"
          starts,     \* job -> how often started
          order       \* jobs in order of completion
vars == <<k, kind, round, idx, cur, proc, pipe, res, starts, order>>
Jobs == 1..N
W == 1..k
Fresh == /\ idx = 1 /\ cur = [w \in 1..MaxK |-> 0] /\ proc = [j \in Jobs |-> "none"] /\ pipe = [j \in Jobs |-> FALSE]
         /\ res = [j \in Jobs |-> "none"] /\ starts = [j \in Jobs |-> 0] /\ order = <<>>
Init == k \in 1..MaxK /\ kind \in [Jobs -> Kinds] /\ round = 1 /\ Fresh

Dispatch(w) == /\ cur[w] = 0 /\ idx <= N
               /\ cur' = [cur EXCEPT ![w] = idx]
               /\ proc' = [proc EXCEPT ![idx] = "running"]
               /\ starts' = [starts EXCEPT ![idx] = @ + 1]
               /\ idx' = idx + 1
               /\ UNCHANGED <<k, kind, round, pipe, res, order>>
(* the process computes *)
Compute(j) == /\ proc[j] = "running" /\ kind[j] \in {"ok", "big"}
              /\ proc' = [proc EXCEPT ![j] = "sending"] /\ pipe' = [pipe EXCEPT ![j] = TRUE]
              /\ order' = Append(order, j)
              /\ UNCHANGED <<k, kind, round, idx, cur, res, starts>>
Fail(j) == /\ proc[j] = "running" /\ kind[j] = "fail"
           /\ proc' = [proc EXCEPT ![j] = "exited"] /\ order' = Append(order, j)
           /\ UNCHANGED <<k, kind, round, idx, cur, pipe, res, starts>>
(* a process ends only when its data is flushed; a large result has to be read first *)
Exit(j) == /\ proc[j] = "sending" /\ (kind[j] = "big" => ~pipe[j])
           /\ proc' = [proc EXCEPT ![j] = "exited"]
           /\ UNCHANGED <<k, kind, round, idx, cur, pipe, res, starts, order>>
(* the manager of the job *)
Read(w) == /\ cur[w] # 0 /\ res[cur[w]] = "none" /\ pipe[cur[w]]
           /\ res' = [res EXCEPT ![cur[w]] = "own"] /\ pipe' = [pipe EXCEPT ![cur[w]] = FALSE]
           /\ UNCHANGED <<k, kind, round, idx, cur, proc, starts, order>>
Lost(w) == /\ cur[w] # 0 /\ res[cur[w]] = "none" /\ ~pipe[cur[w]] /\ proc[cur[w]] = "exited"
           /\ res' = [res EXCEPT ![cur[w]] = "fallback"]
           /\ UNCHANGED <<k, kind, round, idx, cur, proc, pipe, starts, order>>
TimeOut(w) == /\ cur[w] # 0 /\ res[cur[w]] = "none" /\ proc[cur[w]] = "running" /\ kind[cur[w]] = "hang"
              /\ proc' = [proc EXCEPT ![cur[w]] = "killed"] /\ res' = [res EXCEPT ![cur[w]] = "fallback"]
              /\ UNCHANGED <<k, kind, round, idx, cur, pipe, starts, order>>
Release(w) == /\ cur[w] # 0 /\ res[cur[w]] # "none" /\ proc[cur[w]] \in {"exited", "killed"}
              /\ cur' = [cur EXCEPT ![w] = 0]
              /\ UNCHANGED <<k, kind, round, idx, proc, pipe, res, starts, order>>
Finished == idx > N /\ \A w \in W : cur[w] = 0
Again == /\ Finished /\ round < Rounds
         /\ round' = round + 1 /\ idx' = 1 /\ cur' = [w \in 1..MaxK |-> 0] /\ proc' = [j \in Jobs |-> "none"] /\ pipe' = [j \in Jobs |-> FALSE]
         /\ res' = [j \in Jobs |-> "none"] /\ starts' = [j \in Jobs |-> 0] /\ order' = <<>>
         /\ UNCHANGED <<k, kind>>
Next == \/ \E w \in W : Dispatch(w) \/ Read(w) \/ Lost(w) \/ TimeOut(w) \/ Release(w)
        \/ \E j \in Jobs : Compute(j) \/ Fail(j) \/ Exit(j)
        \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what a user relies on ---- *)
Expected(kd) == IF kd \in {"ok", "big"} THEN "own" ELSE "fallback"
Alive(j) == proc[j] \in {"running", "sending"}
NeverTooMany == Cardinality({j \in Jobs : Alive(j)}) <= k
Once == \A j \in Jobs : starts[j] <= 1
OwnResults == \A j \in Jobs : res[j] \in {"none", Expected(kind[j])}
Complete == Finished => \A j \in Jobs : starts[j] = 1 /\ res[j] = Expected(kind[j]) /\ ~Alive(j)
Terminates == <>(Finished /\ round = Rounds)
=============================================================================
