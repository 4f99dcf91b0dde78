----------------------------- MODULE TraceBase -----------------------------
(* Common part of all trace specifications: the recorded events (one JSON    *)
(* object per line, file named by the environment variable TRACE) are        *)
(* consumed in order; every event gets a total verdict, the set of the       *)
(* clauses of the specification it breaks, which is printed.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(l, verdict) ==
    /\ IF verdict = {} THEN TRUE ELSE PrintT(<<"VIOL", l, verdict>>)
    /\ IF l = Len(Trace) THEN PrintT(<<"ACCEPTED", l>>) ELSE TRUE

(* clause(name, holds): the singleton {name} if the clause is broken *)
Broken(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
