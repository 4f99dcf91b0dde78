-------------------------------- MODULE Repro --------------------------------
(* Reproducibility (C05).  Two equally constructed sampler objects, a        *)
(* process-wide random source that anybody may disturb, and another sampler. *)
(* An object owns its random stream: what a call returns is determined by    *)
(* the calls made on that object since its construction (or since its stream *)
(* was rewound to the start), the data of the call and nothing else.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Objects, Data, MaxLen
VARIABLES glob,   \* the state of the process-wide random source
          hist,   \* hist[o]: the datasets sampled since construction or rewind
          outs,   \* observed results: <<history, result>>
          log     \* the actions taken
vars == <<glob, hist, outs, log>>

(* the result of a call is an (uninterpreted) function of the history *)
Result(h) == <<"result of", h>>

Init == glob = 0 /\ hist = [o \in Objects |-> <<>>] /\ outs = {} /\ log = <<>>

Sample(o, d) ==
    LET h == Append(hist[o], d)
    IN /\ hist' = [hist EXCEPT ![o] = h]
       /\ outs' = outs \cup {<<h, Result(h)>>}
       /\ log' = Append(log, <<"sample", o, d>>)
       /\ UNCHANGED glob
Rewind(o) == hist[o] # <<>> /\ hist' = [hist EXCEPT ![o] = <<>>] /\ log' = Append(log, <<"rewind", o, "">>) /\ UNCHANGED <<glob, outs>>
Perturb == glob' = 1 - glob /\ log' = Append(log, <<"perturb", "", "">>) /\ UNCHANGED <<hist, outs>>
Other == log' = Append(log, <<"other", "", "">>) /\ glob' \in {glob, 1 - glob} /\ UNCHANGED <<hist, outs>>

Next == Len(log) < MaxLen /\ (\/ \E o \in Objects, d \in Data : Sample(o, d)
                              \/ \E o \in Objects : Rewind(o)
                              \/ Perturb \/ Other)
Spec == Init /\ [][Next]_vars

(* results are a function of the history *)
Reproducible == \A a \in outs, b \in outs : a[1] = b[1] => a[2] = b[2]
=============================================================================
